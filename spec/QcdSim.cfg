CONSTANTS MaxQueries = 60
SPECIFICATION Spec
INVARIANT Minimal
INVARIANT NeverRefused
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
