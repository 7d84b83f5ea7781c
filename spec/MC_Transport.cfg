SPECIFICATION Spec
CONSTANTS Depth = 1 Fine = FALSE
INVARIANTS Covered Beyond Rising Mirror Angles Ties Nested Scaled Frictions
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
