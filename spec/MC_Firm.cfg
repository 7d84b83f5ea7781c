CONSTANTS Durs = {"month", "year", "week"}
 Ns = {1, 3, 14, 26}
 Intervals = {1, 2, 3}
 LoanDurs = {1, 3, 12}
SPECIFICATION Spec
INVARIANTS NeverOutsideWindow OncePerInterval LoanBalance LoanRepaid ClosedOnce ClosingClears YearsDisjoint
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
