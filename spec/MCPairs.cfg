SPECIFICATION Spec
CONSTANT Kind = "slab"
CONSTANT Dhs = {1}
CONSTANT Heaps = {11, 21, 14, 22, 32}
INVARIANTS TypeOK Kept Levelled Settled Downhill
CONSTRAINT Show
CHECK_DEADLOCK FALSE
