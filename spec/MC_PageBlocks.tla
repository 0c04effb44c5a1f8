--------------------------- MODULE MC_PageBlocks ---------------------------
EXTENDS PageBlocks
=============================================================================
