-------------------------------- MODULE Num --------------------------------
(* Integer helpers.  TLC integers have 32 bits, so everything here avoids   *)
(* intermediate values over 2^31-1.                                         *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE PpbDigits(_, _, _, _)
PpbDigits(r, den, k, acc) ==
  IF k = 0 THEN acc
  ELSE PpbDigits((r * 10) % den, den, k - 1, acc * 10 + ((r * 10) \div den))
(* floor(cnt/den * 10^9), for 0 <= cnt <= den < 2*10^8 *)
Ppb(cnt, den) == IF cnt >= den THEN 1000000000 ELSE PpbDigits(cnt, den, 9, 0)

RECURSIVE IsPow2(_)
IsPow2(n) == IF n = 1 THEN TRUE ELSE IF n % 2 = 1 \/ n = 0 THEN FALSE ELSE IsPow2(n \div 2)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

RECURSIVE SumTo(_, _, _)
(* f[lo] + ... + f[hi] *)
SumTo(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumTo(f, lo + 1, hi)

(* The value of an IEEE single given as two 16 bit halves, if it is an      *)
(* integer of magnitude < 2^23, and NotInt otherwise.                       *)
NotInt == 2000000000
F32ToInt(hi, lo) ==
  LET neg == hi >= 32768
      exp == (hi % 32768) \div 128
      man == (hi % 128) * 65536 + lo
      mag == IF exp = 0 THEN (IF man = 0 THEN 0 ELSE NotInt)
             ELSE IF exp < 127 \/ exp > 149 THEN NotInt
             ELSE LET full == 8388608 + man     \* value = full / 2^(150-exp)
                      d == Pow2(150 - exp)
                  IN IF full % d = 0 THEN full \div d ELSE NotInt
  IN IF mag = NotInt THEN NotInt ELSE IF neg THEN -mag ELSE mag

(* The value times 2^16, rounded towards 0, if it is of magnitude < 2; else    *)
(* NotInt.                                                                   *)
F32Scaled(hi, lo) ==
  LET exp == (hi % 32768) \div 128
      full == 8388608 + (hi % 128) * 65536 + lo     \* value = full / 2^(150-exp)
      mag == IF exp >= 128 THEN NotInt ELSE IF exp <= 104 THEN 0 ELSE full \div Pow2(134 - exp)
  IN IF mag = NotInt THEN NotInt ELSE IF hi >= 32768 THEN -mag ELSE mag

(* Classification of a single's bits *)
F32IsNaN(hi, lo) == hi % 32768 > 32640 \/ (hi % 32768 = 32640 /\ lo > 0)
F32IsFinite(hi, lo) == hi % 32768 < 32640
F32IsNeg(hi, lo) == hi > 32768 \/ (hi = 32768 /\ lo > 0)     \* -0 is not negative
F32AboveOne(hi, lo) == hi < 32768 /\ (hi > 16256 \/ (hi = 16256 /\ lo > 0))
=============================================================================
