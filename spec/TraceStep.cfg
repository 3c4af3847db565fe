SPECIFICATION TSpec
INVARIANT Verdict
CHECK_DEADLOCK FALSE
