SPECIFICATION Spec
CONSTANT Gap = 2
CONSTANT Amts = {1, 3}
CONSTANT Big = FALSE
INVARIANTS Proper Kept Blocked
CONSTRAINT Show
CHECK_DEADLOCK FALSE
