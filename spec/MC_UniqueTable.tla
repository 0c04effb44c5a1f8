--------------------------- MODULE MC_UniqueTable ---------------------------
EXTENDS UniqueTable
CONSTANT NK
\* NK pairs of branches
KeySet == { <<i, i + 1>> : i \in 1..NK }
=============================================================================
