SPECIFICATION Spec
CONSTANT Max = 5
PROPERTY NothingOverwritten
PROPERTY KeepsNoGaps
CHECK_DEADLOCK FALSE
