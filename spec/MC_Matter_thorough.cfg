SPECIFICATION Spec
CONSTANTS Depth = 3 Fine = TRUE
INVARIANTS Refusals Positive Ratios Between Oxides Fluid Slope Gas Powers
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
