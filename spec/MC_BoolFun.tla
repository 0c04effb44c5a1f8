------------------------------ MODULE MC_BoolFun ------------------------------
(* Checks the algebra of BoolFun by exhaustion over all functions of three  *)
(* variables (and pairs of functions of two): word operations against their *)
(* pointwise meaning, cofactors, the expansion theorem, and that the set of *)
(* subfunctions gives an ordered, reduced diagram that denotes the function.*)
EXTENDS BoolFun, TLC
CONSTANT N
U == ExactUniverse(N)
Points == 0..(2 ^ N - 1)
Val(f, p) == BitOf(f[p \div 16 + 1], p % 16)
PBit(p, v) == ((p \div (2 ^ v)) % 2) = 1
Fun(S) == [i \in DOMAIN U.full |-> SumBits({ k \in Bits : ((i-1)*16 + k) \in S }, 0)]
AllFuns == { Fun(S) : S \in SUBSET Points }

VARIABLES f, g
Init == f \in AllFuns /\ g \in AllFuns
Next == UNCHANGED <<f, g>>
Spec == Init /\ [][Next]_<<f, g>>

WordOps ==
   \A p \in Points :
      /\ Val(FAnd(f, g), p) = (Val(f, p) /\ Val(g, p))
      /\ Val(FOr(f, g), p)  = (Val(f, p) \/ Val(g, p))
      /\ Val(FXor(f, g), p) = (Val(f, p) # Val(g, p))
      /\ Val(FNot(U, f), p) = ~Val(f, p)
      /\ \A v \in 0..(N-1) : Val(VarFun(U, v), p) = PBit(p, v)
Cofactors ==
   \A v \in 0..(N-1) :
      /\ Node(U, v, Cof(U, f, v, FALSE), Cof(U, f, v, TRUE)) = f
      /\ \A b \in BOOLEAN : ~DependsOn(U, Cof(U, f, v, b), v)
      /\ \A b \in BOOLEAN : Cof(U, FAnd(f, g), v, b) = FAnd(Cof(U, f, v, b), Cof(U, g, v, b))
      /\ \A p \in Points : LET q0 == IF PBit(p, v) THEN p - 2 ^ v ELSE p IN
             /\ Val(Cof(U, f, v, FALSE), p) = Val(f, q0)
             /\ Val(Cof(U, f, v, TRUE), p) = Val(f, q0 + 2 ^ v)
\* the subfunction diagram: ordered, children present, reduced, unique, denotes f
Diagram ==
   LET D == SubNodes(U, N, f)
       C == { FFalse(U), FTrue(U) }
   IN /\ (D = {}) <=> (f \in C)
      /\ \A d \in D :
            LET lo == Cof(U, d[2], d[1], FALSE)
                hi == Cof(U, d[2], d[1], TRUE)
            IN /\ lo # hi
               /\ \A c \in {lo, hi} : c \in C \/ \E e \in D : e[2] = c /\ e[1] > d[1]
               /\ \A e \in D : (e[1] = d[1] /\ Cof(U, e[2], e[1], FALSE) = lo
                                           /\ Cof(U, e[2], e[1], TRUE) = hi) => e = d
               /\ d[1] \in Support(U, N, f)
      /\ { d[1] : d \in D } = Support(U, N, f)
Counts ==
   /\ Pop(f) = Cardinality({ p \in Points : Val(f, p) })
   /\ \A b \in 0..3 : LET P(c) == c = b IN
        \A p \in Points : Val(Counting(U, <<f, g, f>>, P), p)
                            = (((IF Val(f, p) THEN 2 ELSE 0) + (IF Val(g, p) THEN 1 ELSE 0)) = b)
\* one solution over the support <=> every node of the diagram has exactly one false branch
OneSolution ==
   LET s == Cardinality(Support(U, N, f))
       D == SubNodes(U, N, f)
   IN (Pop(f) = 2 ^ (N - s))
        <=> (f # FFalse(U) /\ \A d \in D :
                \E b \in BOOLEAN : Cof(U, d[2], d[1], b) = FFalse(U))
=============================================================================
