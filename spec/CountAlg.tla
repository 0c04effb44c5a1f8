------------------------------- MODULE CountAlg -------------------------------
(***************************************************************************)
(* The recursions by which the counting constraints and the n-ary forms of   *)
(* the connectives are put together from binary ones.  They work on every    *)
(* assignment separately, so it is enough to look at sequences x of truth    *)
(* values: the values of the listed BDDs under one assignment.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Variant
Half1(x) == SubSeq(x, 1, Len(x) \div 2)
Half2(x) == SubSeq(x, Len(x) \div 2 + 1, Len(x))

RECURSIVE AndR(_), OrR(_), XorR(_), AllFalse(_), AtMostOne(_), AtLeast(_, _), AtMost(_, _), Card(_, _)
AndR(x) == CASE Len(x) = 1 -> x[1] [] Len(x) = 2 -> x[1] /\ x[2] [] Len(x) = 3 -> x[1] /\ (x[2] /\ x[3])
             [] OTHER -> AndR(Half1(x)) /\ AndR(Half2(x))
OrR(x) == CASE Len(x) = 1 -> x[1] [] Len(x) = 2 -> x[1] \/ x[2] [] Len(x) = 3 -> x[1] \/ (x[2] \/ x[3])
             [] OTHER -> OrR(Half1(x)) \/ OrR(Half2(x))
XorR(x) == CASE Len(x) = 2 -> x[1] # x[2] [] Len(x) = 3 -> x[1] # (x[2] # x[3])
             [] OTHER -> XorR(Half1(x)) # XorR(Half2(x))
AllFalse(x) == CASE Len(x) = 1 -> ~x[1] [] Len(x) = 2 -> ~x[1] /\ ~x[2]
             [] OTHER -> AllFalse(Half1(x)) /\ AllFalse(Half2(x))
AtMostOne(x) ==
   CASE Len(x) = 1 -> TRUE
     [] Len(x) = 2 -> ~x[1] \/ ~x[2]
     [] Len(x) = 3 -> (~x[1] \/ ~x[2]) /\ (~x[1] \/ ~x[3]) /\ (IF Variant = "two-pairs" THEN TRUE ELSE ~x[2] \/ ~x[3])
     [] OTHER -> \/ AtMostOne(Half1(x)) /\ AllFalse(Half2(x))
                 \/ IF Variant = "same-half" THEN AtMostOne(Half2(x)) /\ AllFalse(Half2(x)) ELSE AtMostOne(Half2(x)) /\ AllFalse(Half1(x))
Simplex(x) == IF Len(x) = 1 THEN x[1] ELSE OrR(x) /\ AtMostOne(x)
AtLeastOne(x) == ~AllFalse(x)
Splits(b) == IF Variant = "split-without-all-left" THEN 0..(b-1) ELSE 0..b
AtLeast(x, b) ==
   IF Len(x) < b THEN FALSE
   ELSE IF Len(x) = 1 /\ b = 1 THEN x[1]
   ELSE IF b = 0 THEN TRUE
   ELSE \E k \in Splits(b) : AtLeast(Half1(x), k) /\ AtLeast(Half2(x), b - k)
AtMost(x, b) ==
   IF Len(x) < b THEN Variant # "large-bound-false"
   ELSE IF Len(x) = 1 /\ b = 1 THEN TRUE
   ELSE IF Len(x) = 1 /\ b = 0 THEN ~x[1]
   ELSE IF b = 0 THEN AllFalse(x)
   ELSE \E k \in Splits(b) : AtMost(Half1(x), k) /\ AtMost(Half2(x), b - k)
Card(x, b) ==
   IF Len(x) < b THEN FALSE
   ELSE IF Len(x) = 1 /\ b = 1 THEN x[1]
   ELSE IF Len(x) = 1 /\ b = 0 THEN ~x[1]
   ELSE IF b = 0 THEN AllFalse(x)
   ELSE \E k \in Splits(b) : Card(Half1(x), k) /\ (IF Variant = "rest-at-least" THEN AtLeast(Half2(x), b - k) ELSE Card(Half2(x), b - k))
=============================================================================
