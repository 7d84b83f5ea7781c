CONSTANTS MaxOps = 4
 Masses = {"0", "10"}
 Kinds = {"chem", "slurry"}
SPECIFICATION Spec
INVARIANTS NeverNegative Splits Adds Scales
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
