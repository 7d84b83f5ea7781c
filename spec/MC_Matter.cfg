SPECIFICATION Spec
CONSTANTS Depth = 2 Fine = FALSE
INVARIANTS Refusals Positive Ratios Between Oxides Fluid Slope Gas Powers
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
