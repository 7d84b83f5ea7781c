CONSTANTS MaxOps = 4
 Forms = {"FeO", "Si"}
 Dirs = {"a", "b", "c"}
SPECIFICATION Spec
INVARIANTS Typed
PROPERTIES Acts
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
