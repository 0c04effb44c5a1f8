SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS WordOps Cofactors Diagram Counts OneSolution
CHECK_DEADLOCK FALSE
