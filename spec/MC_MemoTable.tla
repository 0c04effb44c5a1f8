--------------------------- MODULE MC_MemoTable ---------------------------
EXTENDS MemoTable
CONSTANT NK
\* operand order, operation symbol and else-operand distinguish keys
KeySet == { << <<3, 4, -1>>, <<4, 3, -1>>, <<3, 4, -2>>, <<3, 4, 4>> >>[i] : i \in 1..NK }
\* the number of insertions no longer matters in a table that may not grow
View == <<mem, IF Size < MaxSize THEN ins ELSE 0, hash, last, alive>>
=============================================================================
