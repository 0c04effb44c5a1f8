---------------------------- MODULE BddCollection ----------------------------
(***************************************************************************)
(* Collections of stored BDDs at the level of their public interface.       *)
(*                                                                         *)
(*   cl[c]  collection c: the sequence of its stored BDDs                   *)
(*          [d |-> diagram, f |-> function, ord |-> BOOLEAN]                *)
(*                                                                         *)
(* A diagram is the list of its nodes <<variable, lo, hi>>, root first, lo  *)
(* and hi 0-based positions in the list; the sinks come last and have       *)
(* variable -1 (false) and -2 (true).  ord: variables increase along every  *)
(* path (renaming by a map that changes the order loses that).              *)
(***************************************************************************)
EXTENDS BoolFun, TLC
LOCAL INSTANCE SequencesExt

VARIABLES u, cl
cvars == <<u, cl>>

EmptyFn == [x \in {} |-> x]
BotNode == <<-1, 0, 0>>
TopNode == <<-2, 0, 0>>
IsSink(n) == n[1] < 0

\* the values of the nodes of d, from the last to the first
AddFun(d, n, acc) ==   \* acc[k]: value of node Len(d) - Len(acc) + k
   LET i == Len(d) - Len(acc)
       v == IF n[1] = -1 THEN FFalse(u) ELSE IF n[1] = -2 THEN FTrue(u)
            ELSE Node(u, n[1], acc[n[2] - i + 1], acc[n[3] - i + 1])
   IN <<v>> \o acc
DiagFun(d) == FoldRight(LAMBDA n, acc : AddFun(d, n, acc), d, <<>>)[1]

RECURSIVE ReachD(_, _, _)
ReachD(d, todo, seen) ==
   IF todo = {} THEN seen
   ELSE LET new == { x \in UNION { {d[i+1][2], d[i+1][3]} : i \in { j \in todo : ~IsSink(d[j+1]) } } : TRUE }
        IN ReachD(d, new \ (seen \cup todo), seen \cup todo)

\* branches lead to later nodes of the same BDD; both sinks last
Linked(d) ==
   LET n == Len(d)
   IN /\ n >= 2
      /\ { d[n-1], d[n] } = { BotNode, TopNode }
      /\ \A i \in 1..(n-2) : ~IsSink(d[i]) /\ d[i][2] \in i..(n-1) /\ d[i][3] \in i..(n-1)
NotRedundant(d) == \A i \in 1..(Len(d)-2) : d[i][2] # d[i][3]
NoDuplicates(d) == Cardinality({ d[i] : i \in DOMAIN d }) = Len(d)
AllReachable(d) == 0..(Len(d)-3) \subseteq ReachD(d, {0}, {})
OrderedD(d) == \A i \in 1..(Len(d)-2) : \A c \in {d[i][2], d[i][3]} : IsSink(d[c+1]) \/ d[c+1][1] > d[i][1]
WellFormed(d) == Linked(d) /\ NotRedundant(d) /\ NoDuplicates(d) /\ AllReachable(d)
NodeTests(d) == { d[i][1] : i \in 1..(Len(d)-2) }

-----------------------------------------------------------------------------
(* Actions *)
Append1(c, d, f, ord) == cl' = [cl EXCEPT ![c] = Append(@, [d |-> d, f |-> f, ord |-> ord])]
Without(s, I) ==   \* the elements whose 0-based index is not in I
   FoldLeft(LAMBDA acc, i : IF (i-1) \in I THEN acc ELSE Append(acc, s[i]), <<>>, [i \in DOMAIN s |-> i])

-----------------------------------------------------------------------------
(* Meaning *)
Fs(c, a) == [i \in DOMAIN a |-> cl[c][a[i]+1].f]
OrLits(f, pos, neg) ==
   FOr(f, FOr(OrAll(u, [i \in DOMAIN pos |-> VarFun(u, pos[i])]),
              OrAll(u, [i \in DOMAIN neg |-> FNot(u, VarFun(u, neg[i]))])))
RECURSIVE PairGet(_, _)
PairGet(pairs, v) == IF Head(pairs)[1] = v THEN Head(pairs)[2] ELSE PairGet(Tail(pairs), v)
Renamed(d, map) == [i \in DOMAIN d |-> IF IsSink(d[i]) THEN d[i] ELSE <<PairGet(map, d[i][1]), d[i][2], d[i][3]>>]
=============================================================================
