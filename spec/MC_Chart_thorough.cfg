CONSTANTS Names = {"A", "B"}
 MaxNode = 6
SPECIFICATION Spec
VIEW View
INVARIANTS Shape Unique LookupInverse TypeInherited
PROPERTY RenameLocal
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
