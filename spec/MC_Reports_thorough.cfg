CONSTANTS MaxTx = 3
 Amounts = {"10"}
 Days = {1, 2}
SPECIFICATION Spec
INVARIANTS SheetBalances IncomeSplits ComponentsAdd ComponentsNest SiblingsApart ListSorted
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
