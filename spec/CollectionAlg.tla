---------------------------- MODULE CollectionAlg ----------------------------
(***************************************************************************)
(* Collections as they are built: one sequence of entries <<lo, hi, index>> *)
(* with absolute positions (from 0), delimiters between the stored BDDs,     *)
(* and operations that meld stored BDDs on a stack whose reversal becomes    *)
(* the new stored BDD.                                                       *)
(*                                                                         *)
(*   st.ins   entries          st.del  delimiters, <<0>> if nothing is stored *)
(*   st.red   reduction map, empty between operations                         *)
(*   st.open  a stored BDD under construction                                 *)
(*                                                                         *)
(* Variant selects a faulty version of one step, "none" is the algorithm of  *)
(* the code.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Variant
BOT == 1000      \* the index of a sink is larger than every variable
TOP == 1001
BotE == <<0, 0, BOT>>
TopE == <<0, 0, TOP>>
FAIL == -1
Void == [x \in {} |-> x]

Empty == [ins |-> <<>>, del |-> <<0>>, red |-> Void, open |-> FALSE]
Nr(st) == Len(st.del) - 1
First(st, b) == st.del[b+1]          \* b: number of a stored BDD, from 0
Past(st, b) == st.del[b+2]
Last(s) == s[Len(s)]
At(st, i) == st.ins[i+1]
IsSink(e) == e[3] >= BOT
SizeOf(st, b) == Past(st, b) - First(st, b)

\* the new stored BDD: the stack from its end to its beginning
Reversed(stk, offset) ==
   LET n == Len(stk)
       pos(i) == offset + n - i - 1   \* i: position on the stack from 0
   IN [k \in 1..n |-> LET e == stk[n + 1 - k] IN IF IsSink(e) THEN e ELSE <<pos(e[1]), pos(e[2]), e[3]>>]
Store(st, stk, root) ==
   LET s == IF root = 0 /\ Variant # "root-not-first" THEN <<stk[2], stk[1]>> \o SubSeq(stk, 3, Len(stk)) ELSE stk
   IN [st EXCEPT !.ins = @ \o Reversed(s, Last(st.del)), !.del = Append(@, Last(st.del) + Len(s))]

\* w: [stk, gen, red].  Operators return <<w, position on the stack>>
Push(w, key, e, lim) ==
   LET idx == Len(w.stk)
       n == CASE Variant = "limit-without-sinks" -> idx - 1 [] Variant = "limit-one-less" -> idx + 2 [] OTHER -> idx + 1
       w1 == [w EXCEPT !.stk = Append(@, e)]
   IN IF n > lim THEN <<w1, FAIL>>
      ELSE <<[w1 EXCEPT !.gen = (key :> idx) @@ @, !.red = (e :> idx) @@ @], idx>>
Reduce(w, key, lo, hi, v, lim) ==
   IF lo = hi THEN <<w, lo>>
   ELSE IF <<lo, hi, v>> \in DOMAIN w.red /\ Variant # "no-reduction" THEN <<w, w.red[<<lo, hi, v>>]>>
   ELSE Push(w, key, <<lo, hi, v>>, lim)

Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
\* conjunction of the diagrams that start at the entries ps
RECURSIVE Meld(_, _, _, _)
Meld(ins, w, ps, lim) ==
   LET key == IF Variant = "first-operand-as-key" THEN <<ps[1]>> ELSE ps
       es == [k \in DOMAIN ps |-> ins[ps[k]+1]]
       two == Len(ps) = 2
   IN IF key \in DOMAIN w.gen THEN <<w, w.gen[key]>>
      ELSE IF \A k \in DOMAIN es : es[k][3] = TOP THEN <<w, 1>>
      ELSE IF two /\ IsSink(es[1]) /\ IsSink(es[2]) THEN <<w, 0>>
      ELSE IF two /\ es[1][3] = BOT THEN <<w, 0>>   \* a false second operand is found further down
      ELSE IF ~two /\ \E k \in DOMAIN es : es[k][3] = BOT THEN <<w, 0>>
      ELSE LET vs == { es[k][3] : k \in DOMAIN es }
               v == IF Variant = "larger-variable" THEN CHOOSE x \in vs : x < BOT /\ \A y \in vs : y < BOT => y <= x
                    ELSE Smallest(vs)
               a == Meld(ins, w, [k \in DOMAIN ps |-> IF es[k][3] = v THEN es[k][1] ELSE ps[k]], lim)
           IN IF a[2] = FAIL THEN a
              ELSE LET b == Meld(ins, a[1], [k \in DOMAIN ps |-> IF es[k][3] = v THEN es[k][2] ELSE ps[k]], lim)
                   IN IF b[2] = FAIL THEN b ELSE Reduce(b[1], key, a[2], b[2], v, lim)
Start(st) == [stk |-> <<BotE, TopE>>, gen |-> Void, red |-> st.red]
\* conjunction of the stored BDDs bs with at most lim entries; <<state, succeeded>>
And(st, bs, lim) ==
   LET r == Meld(st.ins, Start(st), [k \in DOMAIN bs |-> First(st, bs[k])], lim)
   IN IF r[2] = FAIL THEN <<IF Variant = "failure-keeps-reduction" THEN [st EXCEPT !.red = r[1].red] ELSE st, FALSE>>
      ELSE <<[Store(st, r[1].stk, r[2]) EXCEPT !.red = Void], TRUE>>

\* disjunction with literals <<variable, positive>>, sorted by variable
RECURSIVE OrLits(_, _, _, _, _)
OrLits(ins, w, p, k, lits) ==   \* k: literals done
   LET key == <<p, k>>
       e == ins[p+1]
   IN IF key \in DOMAIN w.gen THEN <<w, w.gen[key]>>
      ELSE IF e[3] = TOP THEN <<w, 1>>
      ELSE IF e[3] = BOT /\ (k = Len(lits) \/ Variant = "or-stops-at-false") THEN <<w, 0>>
      ELSE LET v == IF k < Len(lits) /\ Variant # "or-skips-variables" THEN Smallest({e[3], lits[k+1][1]}) ELSE e[3]
               here == { j \in (k+1)..Len(lits) : lits[j][1] = v }
               loT == IF Variant = "one-literal-per-variable" THEN here # {} /\ ~lits[Smallest(here)][2] ELSE \E j \in here : ~lits[j][2]
               hiT == IF Variant = "one-literal-per-variable" THEN here # {} /\ lits[Smallest(here)][2] ELSE \E j \in here : lits[j][2]
               k1 == CASE Variant = "or-skips-variables" -> Cardinality({ j \in DOMAIN lits : lits[j][1] <= v })
                       [] OTHER -> k + Cardinality(here)
               a == IF loT THEN <<w, 1>> ELSE OrLits(ins, w, IF e[3] = v THEN e[1] ELSE p, k1, lits)
               b == IF hiT THEN <<a[1], 1>> ELSE OrLits(ins, a[1], IF e[3] = v THEN e[2] ELSE p, k1, lits)
               r == Reduce(b[1], key, a[2], b[2], v, 100000)
           IN <<[r[1] EXCEPT !.gen = (key :> r[2]) @@ @], r[2]>>
Or(st, b, lits) ==
   LET r == OrLits(st.ins, Start(st), First(st, b), 0, lits)
   IN Store(st, r[1].stk, r[2])

\* remove the stored BDDs in S
RECURSIVE Compact(_, _, _, _)
Compact(st, S, b, acc) ==
   IF b = Nr(st) THEN acc
   ELSE IF b \in S THEN Compact(st, S, b + 1, acc)
   ELSE LET d == IF Variant = "one-offset" THEN SizeOf(st, Smallest(S)) ELSE First(st, b) - Last(acc.del)
            blk == [k \in 1..SizeOf(st, b) |->
                      LET e == At(st, First(st, b) + k - 1) IN IF IsSink(e) THEN e ELSE <<e[1] - d, e[2] - d, e[3]>>]
        IN Compact(st, S, b + 1, [acc EXCEPT !.ins = @ \o blk, !.del = Append(@, Last(@) + Len(blk))])
Remove(st, S) ==
   IF S = {} THEN st
   ELSE LET f == Smallest(S)   \* everything before the first one stays in place
        IN Compact(st, S, f, [st EXCEPT !.ins = SubSeq(@, 1, First(st, f)), !.del = SubSeq(@, 1, f + 1)])

Rename(st, b, map) ==
   LET past == IF Variant = "renames-the-rest" THEN Len(st.ins) ELSE Past(st, b)
   IN [st EXCEPT !.ins = [k \in DOMAIN st.ins |->
         IF k > First(st, b) /\ k <= past /\ ~IsSink(st.ins[k]) THEN <<st.ins[k][1], st.ins[k][2], map[st.ins[k][3]+1]>> ELSE st.ins[k]]]

\* import of a diagram given as nodes <<variable, lo, hi>>, children last; lo and hi are numbers
\* of nodes (from 1), 0 or -1 for the sinks; root: a number, 0 or -1
Import(st, nodes, root) ==
   LET o == Last(st.del)
       n == Len(nodes)
       pos(x) == CASE x = 0 -> o + n [] x = -1 -> o + n + 1 [] OTHER -> o + x - 1
       sinks == IF root = -1 THEN <<TopE, BotE>> ELSE <<BotE, TopE>>
   IN [st EXCEPT !.ins = @ \o [k \in 1..n |-> <<pos(nodes[k][2]), pos(nodes[k][3]), nodes[k][1]>>] \o sinks,
                 !.del = Append(@, o + n + 2)]

\* construction node by node; a branch is a position, UNSET, TOBOT or TOTOP
UNSET == -1
TOBOT == -2
TOTOP == -3
Open(st) == [st EXCEPT !.del = Append(@, Len(st.ins)), !.open = TRUE]
AddNode(st, v) == [st EXCEPT !.ins = Append(@, <<UNSET, UNSET, v>>), !.del = [@ EXCEPT ![Len(@)] = Len(st.ins) + 1]]
SetArc(st, i, hi, to) == [st EXCEPT !.ins[i+1] = IF hi THEN <<@[1], to, @[3]>> ELSE <<to, @[2], @[3]>>]
OpenFirst(st) == st.del[Len(st.del) - 1]
CanClose(st) ==
   \A i \in (OpenFirst(st)+1)..Len(st.ins) : st.ins[i][1] # UNSET /\ (st.ins[i][2] # UNSET \/ Variant = "unset-branch-accepted")
Close(st) ==
   LET n == Len(st.ins)
       to(x) == CASE x = TOTOP -> n [] x = TOBOT -> n + 1 [] OTHER -> x
   IN [st EXCEPT !.ins = [k \in 1..n |-> IF k > OpenFirst(st) /\ ~IsSink(st.ins[k]) THEN <<to(st.ins[k][1]), to(st.ins[k][2]), st.ins[k][3]>> ELSE st.ins[k]]
                          \o (IF Variant = "sinks-exchanged" THEN <<BotE, TopE>> ELSE <<TopE, BotE>>),
                 !.del = [@ EXCEPT ![Len(@)] = n + 2], !.open = FALSE]
=============================================================================
