CONSTANTS Temps <- Deep
 MaxRecs = 3
SPECIFICATION Spec
INVARIANTS Path Continuous Derivatives
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
