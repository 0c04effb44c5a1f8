--------------------------- MODULE MC_CollectionAlg ---------------------------
(* Histories of one collection built by the algorithms of CollectionAlg over   *)
(* N variables: at most MaxB stored BDDs, Depth operations, Imports imports.    *)
(* fs: what the stored BDDs denote; ord: whether each is ordered; last: what    *)
(* the last operation should have done; want: the nodes of the BDD under        *)
(* construction as described by the caller.                                     *)
EXTENDS CollectionAlg
CONSTANTS N, MaxB, Depth, Imports, Ops, Arity, Lims
B == INSTANCE BoolFun
U == B!ExactUniverse(N)
Points == 0..(2^N - 1)
AllFuns == { << B!SumBits(S, 0) >> : S \in SUBSET Points }
VARIABLES st, fs, ord, last, steps, imps, want, hist
vars == <<st, fs, ord, last, steps, imps, want, hist>>
\* hist: the operations so far, as a script for the driver; kept by the generating configurations only
Rec == FALSE
Yes == TRUE
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE " " \o ToString(a[1]) \o Text(Tail(a))
Say(op, a) == hist' = IF Rec THEN hist \o op \o Text(a) \o ";" ELSE hist
Printed == PrintT("SCRIPT " \o hist')
None == [kind |-> "none"]
Bdds == 0..(Len(fs)-1)

RECURSIVE FunAt(_, _)
FunAt(s, i) == LET e == At(s, i) IN IF e[3] = BOT THEN B!FFalse(U) ELSE IF e[3] = TOP THEN B!FTrue(U)
               ELSE B!Node(U, e[3], FunAt(s, e[1]), FunAt(s, e[2]))
FunOf(s, b) == FunAt(s, First(s, b))

\* the canonical diagram of f, root first
Listed(f) ==
   LET D == B!SubNodes(U, N, f)
       RECURSIVE Lin(_, _)
       Lin(T, v) == IF v >= N THEN <<>> ELSE IF ~ \E d \in T : d[1] = v THEN Lin(T, v + 1)
                    ELSE LET d == CHOOSE x \in T : x[1] = v IN <<d>> \o Lin(T \ {d}, v)
       L == Lin(D, 0)
       num(g) == IF g = B!FFalse(U) THEN 0 ELSE IF g = B!FTrue(U) THEN -1 ELSE CHOOSE i \in DOMAIN L : L[i][2] = g
   IN << [i \in DOMAIN L |-> << L[i][1], num(B!Cof(U, L[i][2], L[i][1], FALSE)), num(B!Cof(U, L[i][2], L[i][1], TRUE)) >>], num(f) >>

Init == st = Empty /\ fs = <<>> /\ ord = <<>> /\ last = None /\ steps = 0 /\ imps = 0 /\ want = <<>> /\ hist = ""
Step(l) == steps' = steps + 1 /\ last' = l
New(f, o) == fs' = Append(fs, f) /\ ord' = Append(ord, o)

Add == /\ imps < Imports /\ Len(fs) < MaxB /\ ~st.open
       /\ \E f \in AllFuns : Say("add", f) /\ LET d == Listed(f) IN st' = Import(st, d[1], d[2]) /\ New(f, TRUE)
       /\ imps' = imps + 1 /\ UNCHANGED want /\ Step(None)
Conj == /\ "and" \in Ops /\ Len(fs) < MaxB /\ ~st.open
        /\ \E n \in Arity : \E bs \in [1..n -> Bdds], lim \in Lims :
              LET r == And(st, bs, lim)
                  f == B!AndAll(U, [k \in 1..n |-> fs[bs[k]+1]])
                  o == \A k \in 1..n : ord[bs[k]+1]
                  fits == B!Size(U, N, f) + 2 <= lim
              IN /\ Say("and", <<lim>> \o bs) /\ st' = r[1]
                 /\ IF r[2] THEN New(f, o) ELSE UNCHANGED <<fs, ord>>
                 /\ Step([kind |-> "and", right |-> (o => (r[2] <=> fits))])
        /\ UNCHANGED <<imps, want>>
LitSets == { S \in SUBSET ((0..(N-1)) \X BOOLEAN) : TRUE }
SortLits(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE
                     LET x == CHOOSE y \in T : \A z \in T : y[1] < z[1] \/ (y[1] = z[1] /\ (y[2] => z[2])) IN <<x>> \o go(T \ {x}) IN go(S)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE <<q[1][1], IF q[1][2] THEN 1 ELSE 0>> \o Flat(Tail(q))
Disj == /\ "or" \in Ops /\ Len(fs) < MaxB /\ ~st.open
        /\ \E b \in Bdds, S \in LitSets :
              /\ Say("or", <<b>> \o Flat(SortLits(S))) /\ st' = Or(st, b, SortLits(S))
              /\ New(B!FOr(fs[b+1], B!OrAll(U, LET q == SortLits(S) IN [k \in DOMAIN q |-> IF q[k][2] THEN B!VarFun(U, q[k][1]) ELSE B!FNot(U, B!VarFun(U, q[k][1]))])), ord[b+1])
        /\ Step(None) /\ UNCHANGED <<imps, want>>
AscSeq(S) == SelectSeq([i \in 1..Len(fs) |-> i - 1], LAMBDA i : i \in S)
Del == /\ "rm" \in Ops /\ ~st.open /\ fs # <<>>
       /\ \E S \in SUBSET Bdds :
             LET keep == SelectSeq([i \in DOMAIN fs |-> i], LAMBDA i : (i-1) \notin S)
             IN /\ Say("rm", AscSeq(S)) /\ st' = Remove(st, S)
                /\ fs' = [k \in DOMAIN keep |-> fs[keep[k]]] /\ ord' = [k \in DOMAIN keep |-> ord[keep[k]]]
       /\ Step(None) /\ UNCHANGED <<imps, want>>
Permuted(f, map) ==
   LET bit(p, v) == (p \div (2^v)) % 2
       RECURSIVE Pt(_, _)
       Pt(p, v) == IF v = N THEN 0 ELSE bit(p, map[v+1]) * (2^v) + Pt(p, v+1)
   IN << B!SumBits({ p \in Points : B!BitOf(f[1], Pt(p, 0)) }, 0) >>
Perms == { m \in [1..N -> 0..(N-1)] : \A i, j \in 1..N : i # j => m[i] # m[j] }
Ren == /\ "reb" \in Ops /\ ~st.open
       /\ \E b \in Bdds, map \in Perms :
             LET s == B!Support(U, N, fs[b+1])
                 mono == \A x, y \in s : x < y => map[x+1] < map[y+1]
             IN /\ Say("reb", <<b>> \o map) /\ st' = Rename(st, b, map)
                /\ fs' = [fs EXCEPT ![b+1] = Permuted(@, map)] /\ ord' = [ord EXCEPT ![b+1] = @ /\ mono]
       /\ Step(None) /\ UNCHANGED <<imps, want>>

\* construction: want[i] = <<variable, lo, hi>>, lo and hi numbers of nodes (from 1), "unset", "bot" or "top"
Begin == "build" \in Ops /\ ~st.open /\ Len(fs) < MaxB /\ Say("open", <<>>) /\ st' = Open(st) /\ want' = <<>> /\ Step(None) /\ UNCHANGED <<fs, ord, imps>>
NodeB == st.open /\ Len(want) < 3 /\ \E v \in 0..(N-1) : Say("node", <<v>>) /\ st' = AddNode(st, v) /\ want' = Append(want, <<v, "unset", "unset">>) /\ Step(None) /\ UNCHANGED <<fs, ord, imps>>
Arc == /\ st.open
       /\ \E i \in DOMAIN want, hi \in BOOLEAN :
             \/ \E j \in (i+1)..Len(want) :
                   /\ want[j][1] > want[i][1]
                   /\ Say("arc", <<i, IF hi THEN 1 ELSE 0, j>>) /\ st' = SetArc(st, OpenFirst(st) + i - 1, hi, OpenFirst(st) + j - 1)
                   /\ want' = [want EXCEPT ![i] = IF hi THEN <<@[1], @[2], ToString(j)>> ELSE <<@[1], ToString(j), @[3]>>]
             \/ \E t \in {"bot", "top"} :
                   /\ Say("arc", <<i, IF hi THEN 1 ELSE 0, IF t = "bot" THEN -1 ELSE -2>>) /\ st' = SetArc(st, OpenFirst(st) + i - 1, hi, IF t = "bot" THEN TOBOT ELSE TOTOP)
                   /\ want' = [want EXCEPT ![i] = IF hi THEN <<@[1], @[2], t>> ELSE <<@[1], t, @[3]>>]
       /\ Step(None) /\ UNCHANGED <<fs, ord, imps>>
\* the description is an ordered, reduced diagram with root first
RECURSIVE Desc(_)
Desc(x) == IF x = "bot" THEN B!FFalse(U) ELSE IF x = "top" THEN B!FTrue(U)
           ELSE LET i == CHOOSE k \in DOMAIN want : ToString(k) = x IN B!Node(U, want[i][1], Desc(want[i][2]), Desc(want[i][3]))
Complete == \A i \in DOMAIN want : want[i][2] # "unset" /\ want[i][3] # "unset"
Proper == /\ want # <<>>
          /\ \A i \in DOMAIN want : want[i][2] # want[i][3]
          /\ \A i, j \in DOMAIN want : i # j => want[i] # want[j]
          /\ \A i \in 2..Len(want) : \E j \in DOMAIN want : ToString(i) \in {want[j][2], want[j][3]}
TryClose == /\ st.open /\ Proper /\ Say("close", <<>>)
            /\ IF CanClose(st)
               THEN /\ st' = Close(st)
                    /\ IF Complete THEN New(Desc("1"), TRUE) ELSE New(B!FFalse(U), FALSE)
                    /\ Step([kind |-> "close", right |-> Complete, nodes |-> want])
               ELSE UNCHANGED <<st, fs, ord>> /\ Step([kind |-> "error", right |-> ~Complete])
            /\ UNCHANGED <<imps, want>>
Next == steps < Depth /\ (Add \/ Conj \/ Disj \/ Del \/ Ren \/ Begin \/ NodeB \/ Arc \/ TryClose)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Right == last.kind # "none" => last.right
Numbered == Nr(st) = Len(fs) + (IF st.open THEN 1 ELSE 0) /\ Last(st.del) = Len(st.ins) /\ Len(ord) = Len(fs)
Block(b) == First(st, b)..(Past(st, b) - 1)
Inner(b) == First(st, b)..(Past(st, b) - 3)
WellFormed ==
   \A b \in Bdds :
      /\ Past(st, b) - First(st, b) >= 2
      /\ { At(st, Past(st, b) - 2), At(st, Past(st, b) - 1) } = { BotE, TopE }
      /\ \A i \in Inner(b) : LET e == At(st, i) IN
            /\ ~IsSink(e) /\ e[1] \in (i+1)..(Past(st, b) - 1) /\ e[2] \in (i+1)..(Past(st, b) - 1) /\ e[1] # e[2]
            /\ \A j \in Inner(b) : j # i => At(st, j) # e
            /\ i # First(st, b) => \E j \in Inner(b) : i \in {At(st, j)[1], At(st, j)[2]}
Denotes == WellFormed => \A b \in Bdds : FunOf(st, b) = fs[b+1]
Minimal == \A b \in Bdds : ord[b+1] => SizeOf(st, b) = B!Size(U, N, fs[b+1]) + 2
Ordered == \A b \in Bdds : ord[b+1] => \A i \in Inner(b) : LET e == At(st, i) IN At(st, e[1])[3] > e[3] /\ At(st, e[2])[3] > e[3]
\* the stored BDD has exactly the nodes and branches that were described
AsDescribed == last.kind = "close" /\ last.right =>
   LET b == Nr(st) - 1
       to(x, e) == IF x = "bot" THEN e = BotE ELSE IF x = "top" THEN e = TopE ELSE \E k \in DOMAIN last.nodes : ToString(k) = x /\ e = At(st, First(st, b) + k - 1)
   IN /\ SizeOf(st, b) = Len(last.nodes) + 2
      /\ \A i \in DOMAIN last.nodes : LET e == At(st, First(st, b) + i - 1) IN
            e[3] = last.nodes[i][1] /\ to(last.nodes[i][2], At(st, e[1])) /\ to(last.nodes[i][3], At(st, e[2]))
View == <<st, fs, ord, last, want, imps>>
=============================================================================
