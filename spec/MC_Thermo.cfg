CONSTANTS Temps <- Quick
 MaxRecs = 2
SPECIFICATION Spec
INVARIANTS Path Continuous Derivatives
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
