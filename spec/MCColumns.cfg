SPECIFICATION Spec
CONSTANT Top = 7
INVARIANTS AlwaysProper Complete
CONSTRAINT Show
CHECK_DEADLOCK FALSE
