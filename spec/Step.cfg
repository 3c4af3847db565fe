SPECIFICATION Spec
INVARIANT Bounded
INVARIANT Shape
PROPERTY Ends
CHECK_DEADLOCK FALSE
