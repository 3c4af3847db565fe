SPECIFICATION TraceSpec
CONSTRAINT Prune
CHECK_DEADLOCK FALSE
