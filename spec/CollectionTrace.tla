---------------------------- MODULE CollectionTrace ----------------------------
(* Trace validation for bdd_collection objects; see ManagerTrace for the      *)
(* conventions.                                                               *)
EXTENDS BddCollection, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Check == { IOEnv.CHECK }
VARIABLE l
tvars == <<u, cl, l>>
E == Trace[l]
Req(ps, name, b) ==
   IF ps \cap Check = {} THEN TRUE
   ELSE IF b THEN TRUE ELSE PrintT(<<"REJECT", l, ps \cap Check, name>>) /\ FALSE
SetOf(seq) == { seq[i] : i \in DOMAIN seq }

TInit ==
   /\ l = 1
   /\ u = [full |-> <<0>>, var |-> <<>>, exact |-> FALSE, n |-> 0]
   /\ cl = EmptyFn
   /\ TLCSet(7, 1)

Reset ==
   /\ E.e = "reset"
   /\ u' = [full |-> E.full, var |-> E.var, exact |-> E.exact = 1, n |-> E.n]
   /\ cl' = EmptyFn

Count(ps, n) == Req(ps, "number of stored BDDs", E.nb = n /\ E.sz = n)

\* p: the property of the operation; E.new is the diagram it stored, f what it has to denote, ord: its operands are ordered
NewBddO(p, c, f, ord) ==
   /\ Req(p, "index of the new BDD", E.r = Len(cl[c]))
   /\ Count(p \cup {"C22"}, Len(cl[c]) + 1)
   /\ Req(p, "value of the new BDD", E.rt = f)
   /\ Req(p \cup {"C15"}, "branches lead to later nodes, sinks last", Linked(E.new))
   /\ Req(p, "the diagram denotes the value", Linked(E.new) /\ DiagFun(E.new) = f)
   /\ Req(p \cup {"C15"}, "reduced",
          NotRedundant(E.new) /\ NoDuplicates(E.new) /\ AllReachable(E.new))
   /\ Req(p \cup {"C15"}, "ordered", ord => OrderedD(E.new))
   /\ Req(p \cup {"C15"}, "minimal size", (ord /\ u.exact) => Len(E.new) = Size(u, u.n, f) + 2)
   /\ Append1(E.c, E.new, E.rt, OrderedD(E.new))
NewBdd(p, c, f) == NewBddO(p, c, f, TRUE)

NewCol ==
   \/ E.e = "newcol"  /\ Count({"C15", "C22"}, 0) /\ cl' = (E.c :> <<>>) @@ cl
   \/ E.e = "delcol"  /\ cl' = [x \in (DOMAIN cl) \ {E.c} |-> cl[x]]
   \/ E.e = "copycol" /\ Count({"C15", "C22"}, Len(cl[E.c])) /\ cl' = (E.d :> cl[E.c]) @@ cl

AddStep ==
   /\ E.e = "add"
   /\ Req({"C10"}, "one entry per node plus the sinks", Len(E.new) = E.nodes + 2)
   /\ Req({"C10"}, "the imported BDD is unchanged", E.at2 = E.at)
   /\ NewBdd({"C10"}, E.c, E.at)

AndStep ==
   /\ E.e = "and"
   /\ \E f \in { AndAll(u, Fs(E.c, E.a)) } :
      LET ord == \A i \in DOMAIN E.a : cl[E.c][E.a[i]+1].ord
          fits == E.limit = -1 \/ Len(E.a) = 1 \/ E.usz <= E.limit
      IN /\ Req({"C12"}, "succeeds iff the result has at most limit nodes", (E.r # -1) <=> fits)
         /\ Req({"C12"}, "size without a limit", (ord /\ u.exact /\ Len(E.a) > 1) => E.usz = Size(u, u.n, f) + 2)
         /\ Req({"C12"}, "later conjunctions", E.usz2 = E.usz /\ E.rt2 = f)
         /\ Req({"C11"}, "succeeds without a limit", E.limit = -1 => E.r # -1)
         /\ IF E.r = -1 THEN Count({"C11", "C12"}, Len(cl[E.c])) /\ UNCHANGED cl
            ELSE IF Len(E.a) = 1
            THEN /\ Req({"C11"}, "a range of one names the existing BDD", E.r = E.a[1])
                 /\ Count({"C11", "C12"}, Len(cl[E.c])) /\ UNCHANGED cl
            ELSE NewBddO({"C11", "C12"}, E.c, f, ord)

OrStep ==
   /\ E.e = "or"
   /\ NewBddO({"C14"}, E.c, OrLits(cl[E.c][E.a[1]+1].f, E.pos, E.neg), cl[E.c][E.a[1]+1].ord)

RemoveStep ==
   /\ E.e = "rm"
   /\ Count({"C13"}, Len(cl[E.c]) - Len(E.a))
   /\ cl' = [cl EXCEPT ![E.c] = Without(@, SetOf(E.a))]

RebaseStep ==
   /\ E.e = "reb"
   /\ \E d \in { Renamed(cl[E.c][E.a[1]+1].d, E.map) } :
         /\ Req({"C13"}, "exactly the variables are renamed", E.new = d)
         /\ Req({"C13"}, "value with renamed variables", E.rt = DiagFun(d))
         /\ Req({"C15"}, "well-formed", WellFormed(E.new))
         /\ Count({"C13"}, Len(cl[E.c]))
         /\ cl' = [cl EXCEPT ![E.c][E.a[1]+1] = [d |-> E.new, f |-> E.rt, ord |-> OrderedD(E.new)]]

ExportStep ==
   /\ E.e = "exp"
   /\ LET b == cl[E.c][E.a[1]+1]
      IN /\ Req({"C10"}, "value of the exported BDD", E.rt = b.f)
         /\ Req({"C10"}, "exported to the given manager", E.own = 1)
         /\ Req({"C10"}, "canonical", \A i \in DOMAIN E.pt : (E.eq[i] = 1) <=> (IF u.exact THEN E.pt[i] = b.f ELSE E.eq[i] = 1))
         /\ Req({"C10"}, "an existing handle of the same function",
                ~u.exact => \A i \in DOMAIN E.pt : E.eq[i] = 1 => E.pt[i] = b.f)
         /\ Req({"C10"}, "both ways give the same BDD", E.again = 1)
         /\ Req({"C10"}, "minimal size", IF u.exact THEN E.nodes = Size(u, u.n, b.f) ELSE b.ord => E.nodes + 2 = Len(b.d))
         /\ Req({"C10"}, "imported again", E.backt = b.f /\ Len(E.back) = E.nodes + 2 /\ WellFormed(E.back) /\ DiagFun(E.back) = b.f)
         /\ Count({"C10"}, Len(cl[E.c]))
   /\ UNCHANGED cl

ViewStep ==
   /\ E.e = "view"
   /\ LET b == cl[E.c][E.a[1]+1]
          d == E.d
          n == Len(d)
          pos(x) == (CHOOSE i \in DOMAIN d : d[i] = x) - 1
          per == [v \in 1..u.n |-> Cardinality({ i \in DOMAIN d : d[i][1] = v - 1 })]
          vars == SetToSortSeq(NodeTests(d), <)
      IN /\ Req({"C15"}, "the stored BDD", d = b.d /\ E.d2 = d)
         /\ Req({"C15"}, "well-formed", WellFormed(d))
         /\ Req({"C15"}, "indexing, children, sinks and variables", E.nav = d)
         /\ Req({"C15"}, "number of nodes", E.n1 = n /\ E.n2 = n)
         /\ Req({"C15"}, "root", E.root = 0)
         /\ Req({"C15"}, "sinks", E.bot = pos(BotNode) /\ E.top = pos(TopNode))
         /\ Req({"C15"}, "walk from the last node to the root", E.walk = [i \in 1..(n-2) |-> n - 2 - i])
         /\ Req({"C15"}, "nodes per variable", E.per = per /\ E.per2 = per)
         /\ Req({"C15"}, "variables", E.vars = vars /\ E.vars2 = vars)
         /\ Req({"C15"}, "evaluation", E.rt = DiagFun(d) /\ E.navt = E.rt)
         /\ Req({"C15"}, "graphviz nodes",
                /\ Len(E.gn) = n
                /\ SetOf(E.gn) = { <<i-1, d[i][1], IF d[i][1] < 0 THEN -1 ELSE d[i][1]>> : i \in DOMAIN d })
         /\ Req({"C15"}, "graphviz edges",
                /\ Len(E.ge) = 2 * (n - 2)
                /\ SetOf(E.ge) = { <<i-1, d[i][2], 0>> : i \in 1..(n-2) } \cup { <<i-1, d[i][3], 1>> : i \in 1..(n-2) })
   /\ UNCHANGED cl

\* E.want: nodes as described, branches to nodes or sinks (-1, -2)
BuildStep ==
   /\ E.e = "build"
   /\ LET n == Len(E.want)
          to(d, x) == IF x = -1 THEN d[n+1] = BotNode \/ d[n+2] = BotNode ELSE TRUE
          target(d, x) == IF x >= 0 THEN x ELSE (CHOOSE i \in (n+1)..(n+2) : d[i] = (IF x = -1 THEN BotNode ELSE TopNode)) - 1
      IN /\ Req({"C16"}, "closing with a branch left unset is an error", E.err = E.missing)
         /\ Req({"C16"}, "closing a complete BDD succeeds", E.err2 = 0)
         /\ Req({"C16"}, "exactly the nodes described", Len(E.new) = n + 2)
         /\ Req({"C16"}, "exactly the branches described",
                \A i \in 1..n : E.new[i] = <<E.want[i][1], target(E.new, E.want[i][2]), target(E.new, E.want[i][3])>>)
         /\ NewBdd({"C16"}, E.c, E.at)

\* branches of a closed BDD set anew: E.neg: the sinks exchanged, E.sw: nodes whose branches are exchanged
EditStep ==
   /\ E.e = "edit"
   /\ LET d == cl[E.c][E.a[1]+1].d
          n == Len(d)
          to(x) == IF E.neg = 1 /\ x >= n - 2 THEN 2 * n - 3 - x ELSE x
          want == [i \in 1..n |-> IF IsSink(d[i]) THEN d[i]
                      ELSE IF (i - 1) \in SetOf(E.sw) THEN <<d[i][1], to(d[i][3]), to(d[i][2])>>
                      ELSE <<d[i][1], to(d[i][2]), to(d[i][3])>>]
      IN /\ Req({"C16"}, "exactly the branches set", E.new = want)
         /\ Req({"C16"}, "value with the branches set", E.rt = DiagFun(want))
         /\ Req({"C15"}, "well-formed", WellFormed(E.new))
         /\ Count({"C16"}, Len(cl[E.c]))
         /\ cl' = [cl EXCEPT ![E.c][E.a[1]+1] = [d |-> E.new, f |-> E.rt, ord |-> @.ord]]

FrameProps == {"C10", "C11", "C12", "C13", "C14", "C15", "C16", "C22"}
AuditStep ==
   /\ E.e = "audit"
   /\ Count(FrameProps, Len(cl[E.c]))
   /\ Req(FrameProps, "all stored BDDs as they were", E.bdds = [i \in DOMAIN cl[E.c] |-> cl[E.c][i].d])
   /\ Req(FrameProps, "all values as they were", E.tts = [i \in DOMAIN cl[E.c] |-> cl[E.c][i].f])
   /\ UNCHANGED cl

PairsStep ==
   /\ E.e = "pairs"
   /\ Req({"C11"}, "table of conjunctions", \A i \in DOMAIN E.rows : E.rows[i] = E.f & (i - 1))
   /\ Req({"C11"}, "table of threefold conjunctions", \A i \in DOMAIN E.rows : E.trows[i] = E.f & (i - 1) & E.t)
   /\ Req({"C11", "C12"}, "table of sizes", \A i \in DOMAIN E.rows : E.sizes[i] = Size(u, u.n, <<E.f & (i-1)>>) + 2)
   /\ Req({"C12"}, "table of limits", \A i \in DOMAIN E.rows : E.ok[i] = 1)
   /\ UNCHANGED cl

TNext ==
   /\ l <= Len(Trace)
   /\ \/ Reset
      \/ /\ UNCHANGED u
         /\ \/ NewCol \/ AddStep \/ AndStep \/ OrStep \/ RemoveStep \/ RebaseStep
            \/ ExportStep \/ ViewStep \/ BuildStep \/ EditStep \/ AuditStep \/ PairsStep
   /\ l' = l + 1
   /\ TLCSet(7, l')
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
   IF TLCGet(7) = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
   ELSE PrintT(<<"STUCK", TLCGet(7), Trace[TLCGet(7)]>>) /\ FALSE
=============================================================================
