SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS WordOps Cofactors Diagram Counts OneSolution
CHECK_DEADLOCK FALSE
