CONSTANTS Depth = 4
 Ids = {1, 2}
 Kinds = {"project", "variable", "group", "model", "steady", "dynamic", "own"}
 Values = {"int 7", "str b"}
SPECIFICATION Spec
VIEW View
INVARIANTS Written Complete
PROPERTY Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
