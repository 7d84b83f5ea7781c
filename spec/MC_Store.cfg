CONSTANTS Depth = 5
 Slots = {"p", "q"}
 Files = {"f", "g"}
 Acts = {"a", "b"}
SPECIFICATION Spec
VIEW View
INVARIANTS RoundTrip Snapshot
PROPERTY OtherFiles OtherSlots Grows
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
