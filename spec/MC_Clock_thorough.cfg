CONSTANT MaxIx = 40
SPECIFICATION Spec
VIEW View
INVARIANTS StartIsPeriodZero Monotone DayOfMonthKept Consistent
PROPERTY CounterLaw
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
