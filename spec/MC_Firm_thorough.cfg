CONSTANTS Durs = {"month", "year", "week", "day", "hour"}
 Ns = {1, 2, 3, 13, 14, 26, 38}
 Intervals = {1, 2, 3, 5}
 LoanDurs = {1, 2, 3, 12, 24}
SPECIFICATION Spec
INVARIANTS NeverOutsideWindow OncePerInterval LoanBalance LoanRepaid ClosedOnce ClosingClears YearsDisjoint
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
