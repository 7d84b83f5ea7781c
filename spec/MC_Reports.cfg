CONSTANTS MaxTx = 2
 Amounts = {"0", "10", "2.5"}
 Days = {1, 2}
SPECIFICATION Spec
INVARIANTS SheetBalances IncomeSplits ComponentsAdd ComponentsNest SiblingsApart ListSorted
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
