------------------------------ MODULE MC_CountAlg ------------------------------
(* all sequences of at most MaxLen truth values, all bounds up to two more *)
EXTENDS CountAlg
CONSTANT MaxLen
VARIABLE x
Init == x \in { <<TRUE>>, <<FALSE>> }
Next == Len(x) < MaxLen /\ \E v \in BOOLEAN : x' = Append(x, v)
Spec == Init /\ [][Next]_x
n == Cardinality({ i \in DOMAIN x : x[i] })
Connectives ==
   /\ AndR(x) = (n = Len(x))
   /\ OrR(x) = (n > 0)
   /\ Len(x) >= 2 => XorR(x) = (n % 2 = 1)
One == AllFalse(x) = (n = 0) /\ Simplex(x) = (n = 1) /\ AtMostOne(x) = (n <= 1) /\ AtLeastOne(x) = (n >= 1)
Bounds == \A b \in 0..(Len(x)+2) : AtLeast(x, b) = (n >= b) /\ AtMost(x, b) = (n <= b) /\ Card(x, b) = (n = b)
=============================================================================
