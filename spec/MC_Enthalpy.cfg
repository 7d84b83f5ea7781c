CONSTANTS MaxOps = 3
 MassSet = {"0", "10"}
 TempSet = {"25", "900"}
SPECIFICATION Spec
INVARIANTS FirstLaw NeverNegative Splits Mixes
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
