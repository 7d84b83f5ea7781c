CONSTANTS Syms = {"H", "He", "Fe"}
 Nums = {"", "0", "12"}
 DotNums = {"", "2"}
 Alphabet = {"H", "e", "(", ")", "2", ".", "[", "s", "]"}
 MaxText = 5
SPECIFICATION Spec
INVARIANTS ReadBack Fractions Inverse Conserves Balanced
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
