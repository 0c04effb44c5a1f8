------------------------------- MODULE BoolFun -------------------------------
(***************************************************************************)
(* Boolean functions as the specification sees them: the sequence of their *)
(* values on a universe of points (assignments), 16 points per word.       *)
(*                                                                         *)
(* A universe u is a record                                                *)
(*    u.full   the constant true (sequence of words)                       *)
(*    u.var    u.var[i+1] is the function "variable i is true"             *)
(* If the universe enumerates all assignments of n variables (it is exact) *)
(* two functions are equal iff their words are equal.  If it samples       *)
(* assignments, equality of words is only necessary.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

FTrue(u)  == u.full
FFalse(u) == [i \in DOMAIN u.full |-> 0]
FNot(u, a)    == [i \in DOMAIN u.full |-> u.full[i] ^^ a[i]]
FAnd(a, b)    == [i \in DOMAIN a |-> a[i] & b[i]]
FOr(a, b)     == [i \in DOMAIN a |-> a[i] | b[i]]
FXor(a, b)    == [i \in DOMAIN a |-> a[i] ^^ b[i]]
FIte(u, f, g, h) == [i \in DOMAIN f |-> (f[i] & g[i]) | ((u.full[i] ^^ f[i]) & h[i])]
Const(u, b)  == IF b THEN FTrue(u) ELSE FFalse(u)

VarFun(u, v) == u.var[v+1]
\* Shannon expansion: the value of a node that tests v
\* (TLCEval: the value is computed once, not at every use)
Node(u, v, lo, hi) == TLCEval(FIte(u, VarFun(u, v), hi, lo))

RECURSIVE AndAll(_, _), OrAll(_, _), XorAll(_, _)
AndAll(u, fs) == IF fs = <<>> THEN FTrue(u)  ELSE FAnd(Head(fs), AndAll(u, Tail(fs)))
OrAll(u, fs)  == IF fs = <<>> THEN FFalse(u) ELSE FOr(Head(fs), OrAll(u, Tail(fs)))
XorAll(u, fs) == IF fs = <<>> THEN FFalse(u) ELSE FXor(Head(fs), XorAll(u, Tail(fs)))

-----------------------------------------------------------------------------
(* Values at single points; used where an operation is defined by counting *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
BitOf(w, k) == (w & Pow2[k+1]) # 0
Bits == 0..15

\* number of functions in fs that are true at bit k of word i
CountAt(fs, i, k) == Cardinality({ j \in DOMAIN fs : BitOf(fs[j][i], k) })

RECURSIVE SumBits(_, _)
\* word with the bits in S set
SumBits(S, k) == IF k > 15 THEN 0 ELSE (IF k \in S THEN Pow2[k+1] ELSE 0) + SumBits(S, k+1)

\* the function true where the number of true members of fs satisfies P
Counting(u, fs, P(_)) ==
   [i \in DOMAIN u.full |->
      SumBits({ k \in Bits : BitOf(u.full[i], k) /\ P(CountAt(fs, i, k)) }, 0)]

RECURSIVE PopWord(_)
PopWord(w) == IF w = 0 THEN 0 ELSE (w % 2) + PopWord(w \div 2)
RECURSIVE PopFrom(_, _)
PopFrom(a, i) == IF i > Len(a) THEN 0 ELSE PopWord(a[i]) + PopFrom(a, i+1)
\* number of points where a is true
Pop(a) == PopFrom(a, 1)

-----------------------------------------------------------------------------
(* Cofactors in an exact universe of n variables (2^n points, point p has  *)
(* variable v true iff bit v of p is set; 16 points per word).             *)
Half(w, v) == w \div (2 ^ (2 ^ v))         \* shift right by 2^v points
Twice(w, v) == (w * (2 ^ (2 ^ v))) % 65536 \* shift left by 2^v points
Cof(u, f, v, b) ==
   IF v < 4
   THEN [i \in DOMAIN f |->
           IF b THEN LET t == f[i] & VarFun(u, v)[i] IN t | Half(t, v)
                ELSE LET t == f[i] & (u.full[i] ^^ VarFun(u, v)[i]) IN t | (Twice(t, v) & u.full[i])]
   ELSE [i \in DOMAIN f |->
           LET d == 2 ^ (v - 4)
               one == (((i-1) \div d) % 2) = 1
           IN IF b THEN (IF one THEN f[i] ELSE f[i + d])
                   ELSE (IF one THEN f[i - d] ELSE f[i])]
DependsOn(u, f, v) == Cof(u, f, v, FALSE) # Cof(u, f, v, TRUE)
Support(u, n, f) == { v \in 0..(n-1) : DependsOn(u, f, v) }

(* The reduced ordered BDD of a function is, up to naming, the set of its  *)
(* non-constant subfunctions reached by expanding variables in order.      *)
RECURSIVE SubLevel(_, _, _, _)
\* S: functions that depend on no variable below v
SubLevel(u, n, S, v) ==
   IF v >= n THEN {}
   ELSE LET D == { g \in S : DependsOn(u, g, v) }
            N == (S \ D) \cup { Cof(u, g, v, b) : g \in D, b \in BOOLEAN }
        IN { <<v, g>> : g \in D } \cup SubLevel(u, n, N, v+1)
\* the nodes of the BDD of f as pairs <<variable, function>>
SubNodes(u, n, f) == SubLevel(u, n, {f}, 0)
Size(u, n, f) == Cardinality(SubNodes(u, n, f))

-----------------------------------------------------------------------------
(* Exact universes *)
ExactUniverse(n) ==
   LET nw == IF n <= 4 THEN 1 ELSE 2 ^ (n - 4)
       bitsw == IF n < 4 THEN 2 ^ n ELSE 16
       word(v, i) == SumBits({ k \in 0..(bitsw-1) : ((((i-1) * 16 + k) \div (2 ^ v)) % 2) = 1 }, 0)
   IN [ full |-> [i \in 1..nw |-> SumBits(0..(bitsw-1), 0)],
        var  |-> [v \in 1..n |-> [i \in 1..nw |-> word(v-1, i)]] ]
=============================================================================
