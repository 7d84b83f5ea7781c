-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Exact decimal arithmetic for TLC.                                       *)
(*                                                                         *)
(* TLC's integers are 32 bit, so quantities observed in the implementation *)
(* (IEEE doubles) are carried as decimal numerals in strings.  A double's  *)
(* shortest repr is a numeral, so nothing is lost by the encoding.         *)
(*                                                                         *)
(* DAdd DSub DMul DNeg DAbs DLt DLe DEq DSum DDot are exact; DDiv DSqrt    *)
(* DLn DLog10 DExp DPow carry 60 significant digits.  A string that is not *)
(* a numeral ("NaN", "inf", "None", "") is an undefined number: arithmetic *)
(* on it yields "NaN" and every comparison with it is FALSE.               *)
(*                                                                         *)
(* The operators are evaluated by the Java module override java/Big.java;  *)
(* BigTest.tla has TLC compare it with TLC's own integer arithmetic and    *)
(* with algebraic identities.  TLA+ integers are accepted as numerals.     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Undef == CHOOSE s \in STRING : TRUE

DIsNum(a) == Undef      \* is a a numeral?
DNorm(a) == Undef       \* canonical numeral
DAdd(a, b) == Undef
DSub(a, b) == Undef
DMul(a, b) == Undef
DDiv(a, b) == Undef
DNeg(a) == Undef
DAbs(a) == Undef
DLt(a, b) == Undef
DLe(a, b) == Undef
DEq(a, b) == Undef
DFloor(a) == Undef
DToInt(a) == Undef      \* a TLC integer
DClose(a, b, rel, scale) == Undef  \* |a-b| <= rel * max(|a|,|b|,|scale|)
DFixed(a, n) == Undef   \* the numeral of a with exactly n decimals
DSqrt(a) == Undef
DLn(a) == Undef
DLog10(a) == Undef
DExp(a) == Undef
DPow(a, b) == Undef
DSum(s) == Undef        \* sum of a sequence
DDot(s, t) == Undef     \* sum of s[i]*t[i]

(* Strings are opaque to TLC; these give the spec access to characters. *)
SChars(s) == Undef      \* sequence of one-character strings
SPrefix(p, s) == Undef
SSuffix(p, s) == Undef
SLen(s) == Undef
SOrd(s) == Undef
SLt(a, b) == Undef
SCat(a, b) == Undef
SSub(s, i, j) == Undef   \* characters i..j
STrim(s) == Undef       \* runs of blanks made one, none at the ends

-----------------------------------------------------------------------------
DGt(a, b) == DLt(b, a)
DGe(a, b) == DLe(b, a)
DMax(a, b) == IF DLt(a, b) THEN b ELSE a
DMin(a, b) == IF DLt(b, a) THEN b ELSE a
DIsZero(a) == DEq(a, "0")
=============================================================================
