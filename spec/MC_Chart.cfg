CONSTANTS Names = {"A", "B"}
 MaxNode = 5
SPECIFICATION Spec
VIEW View
INVARIANTS Shape Unique LookupInverse TypeInherited
PROPERTY RenameLocal
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
