------------------------------ MODULE PageCache ------------------------------
(***************************************************************************)
(* A cache of table pages that gets memory in blocks of `block' pages.       *)
(*   out    number of pages reserved     total  number of pages allocated    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES out, total, block
pvars == <<out, total, block>>
PInit(b) == out = 0 /\ total = 0 /\ block = b
\* a block is allocated exactly when every page is reserved
Grown(n) == IF out + n <= total THEN total ELSE total + block * ((out + n - total + block - 1) \div block)
Reserve(n) == out' = out + n /\ total' = Grown(n) /\ UNCHANGED block
Free(n) == out' = out - n /\ UNCHANGED <<total, block>>
PInv == out >= 0 /\ out <= total /\ total % block = 0
=============================================================================
