SPECIFICATION Spec
CONSTANTS Depth = 1 Fine = TRUE
INVARIANTS Covered Beyond Rising Mirror Angles Ties Nested Scaled Frictions
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
