------------------------------ MODULE BigTest ------------------------------
(* Cross-check of the Java override behind Big against TLC's integers and  *)
(* against identities; run by setup and by every check's machinery stage.  *)
EXTENDS Integers, Sequences, TLC, Big

R == -12..12
N(i) == ToString(i)
T(x) == IF x THEN TRUE ELSE FALSE

ASSUME \A a, b \in R :
  /\ DAdd(a, b) = N(a + b)
  /\ DSub(N(a), b) = N(a - b)
  /\ DMul(a, N(b)) = N(a * b)
  /\ DLt(a, b) = (a < b)
  /\ DLe(N(a), N(b)) = (a <= b)
  /\ DEq(a, b) = (a = b)
  /\ DNeg(a) = N(-a)
  /\ DToInt(N(a)) = a
  /\ (b # 0 => DMul(DDiv(a * b, b), 1) = N(a))
  /\ (b > 0 => DFloor(DDiv(a, b)) = N(a \div b))
  /\ DMax(a, b) = (IF a < b THEN b ELSE a)
ASSUME \A a \in R, n \in 0..5 :
  DPow(a, n) = (IF a = 0 /\ n = 0 THEN "1" ELSE N(a^n))
ASSUME \A a \in 0..40 : DSqrt(a * a) = N(a)
ASSUME \A a \in 1..40 :
  /\ DClose(DExp(DLn(a)), a, "1e-50", "0")
  /\ DClose(DPow(DPow(a, "0.2"), 5), a, "1e-50", "0")
  /\ DClose(DLn(a * a), DMul(2, DLn(a)), "1e-50", "1")
  /\ DClose(DLn(DDiv(1, a)), DNeg(DLn(a)), "1e-50", "1")
ASSUME DClose(DExp(1), "2.71828182845904523536028747135266249775724709369995", "1e-49", "0")
ASSUME DClose(DLn(10), "2.30258509299404568401799145468436420760110148862877", "1e-49", "0")
ASSUME DLog10(1000) = "3" \/ DClose(DLog10(1000), 3, "1e-50", "0")
ASSUME ~DLt("NaN", 1) /\ ~DLe("inf", 1) /\ ~DEq("NaN", "NaN") /\ ~DIsNum("None")
ASSUME DAdd("NaN", 1) = "NaN" /\ DDiv(1, 0) = "NaN"
ASSUME DFixed("2.675", 2) = "2.68" /\ DFixed("-0.125", 2) = "-0.12" /\ DFixed(7, 2) = "7.00"
ASSUME DAdd("0.1", "0.2") = "0.3" /\ DNorm("1.50e3") = DNorm("1500")
ASSUME DSum(<<1, "2.5", -3>>) = "0.5" /\ DDot(<<1, 2>>, <<"0.5", 4>>) = "8.5"
ASSUME SChars("aB1") = <<"a", "B", "1">> /\ SPrefix("", "x") /\ SPrefix("ab", "abc")
       /\ ~SPrefix("b", "abc") /\ SSuffix("bc", "abc") /\ SLen("abc") = 3
       /\ SOrd("A") = 65 /\ SLt("A", "B") /\ ~SLt("B", "A") /\ SCat("a", "b") = "ab"

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
