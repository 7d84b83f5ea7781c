CONSTANTS Names = {"A", "B"}
 MaxNode = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Shape KindsNest PathsNest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
