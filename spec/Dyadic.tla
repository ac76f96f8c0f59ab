------------------------------- MODULE Dyadic -------------------------------
(* Exact arithmetic on bounded dyadic rationals m * 2^e, written <<m, e>>    *)
(* with m odd, or <<0, 0>>. They are exactly representable as binary64       *)
(* floats, and so are all the intermediate results of the computations kept  *)
(* by the specifications: comparisons with the implementation are exact.     *)
(*                                                                           *)
(* Two special values: NaN (undefined), and Bad (does not fit in the bounds: *)
(* the specifications never take a step that yields Bad).                    *)
EXTENDS Integers, Sequences

NaN == <<0, 1>>
Bad == <<0, 2>>
Zero == <<0, 0>>
One == <<1, 0>>

MaxM == 32768      \* |m| < MaxM
MaxE == 14         \* |e| <= MaxE

AbsI(i) == IF i < 0 THEN -i ELSE i
SgnI(i) == IF i < 0 THEN -1 ELSE IF i > 0 THEN 1 ELSE 0

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

RECURSIVE Norm(_, _)
Norm(m, e) ==
    IF m = 0 THEN Zero
    ELSE IF m % 2 = 0 THEN Norm(m \div 2, e + 1)
    ELSE IF AbsI(m) >= MaxM \/ e > MaxE \/ e < -MaxE THEN Bad
    ELSE <<m, e>>

IntD(i) == Norm(i, 0)

IsNum(a) == a # NaN /\ a # Bad
IsNaN(a) == a = NaN
IsZero(a) == a = Zero
Sgn(a) == SgnI(a[1])

Neg(a) == IF IsNum(a) THEN <<-a[1], a[2]>> ELSE a
Abs(a) == IF IsNum(a) THEN <<AbsI(a[1]), a[2]>> ELSE a

Add(a, b) ==
    IF a = Bad \/ b = Bad THEN Bad
    ELSE IF a = NaN \/ b = NaN THEN NaN
    ELSE IF a = Zero THEN b
    ELSE IF b = Zero THEN a
    ELSE LET lo == IF a[2] < b[2] THEN a ELSE b
             hi == IF a[2] < b[2] THEN b ELSE a
             sh == hi[2] - lo[2]
         IN IF sh > 14 THEN Bad
            ELSE Norm(lo[1] + hi[1] * Pow2(sh), lo[2])
Sub(a, b) == Add(a, Neg(b))

Mul(a, b) ==
    IF a = Bad \/ b = Bad THEN Bad
    ELSE IF a = NaN \/ b = NaN THEN NaN
    ELSE IF a = Zero \/ b = Zero THEN Zero
    ELSE Norm(a[1] * b[1], a[2] + b[2])

\* 1/a, when a is a power of 2 (up to the sign)
IsPow2(a) == IsNum(a) /\ AbsI(a[1]) = 1
Inv(a) == IF IsPow2(a) THEN Norm(a[1], -a[2]) ELSE Bad

IsInt(a) == IsNum(a) /\ a[2] >= 0
IntVal(a) == a[1] * Pow2(a[2])     \* for IsInt(a)

\* Order (numbers only)
Lt(a, b) == LET d == Sub(a, b) IN
            IF d = Bad
            THEN (* too different: decided by the sign, then by magnitude *)
                 IF Sgn(a) # Sgn(b) THEN Sgn(a) < Sgn(b)
                 ELSE IF a[2] > b[2] THEN Sgn(a) < 0 ELSE Sgn(b) > 0
            ELSE d[1] < 0

\* floor(a/b), b # 0
FloorDiv(a, b) ==
    LET lo == IF a[2] < b[2] THEN a[2] ELSE b[2]
        sa == a[2] - lo
        sb == b[2] - lo
    IN IF sa > 14 \/ sb > 14 THEN Bad
       ELSE LET x == a[1] * Pow2(sa)
                y == b[1] * Pow2(sb)
            IN IF y > 0 THEN IntD(x \div y) ELSE IntD((-x) \div (-y))

\* Powers with a (small) integer exponent
RECURSIVE PowI(_, _)
PowI(a, k) == IF k = 0 THEN One ELSE Mul(a, PowI(a, k - 1))

\* Exact square roots of even powers of 2 (and 0)
HasSqrt(a) == a = Zero \/ (a[1] = 1 /\ a[2] % 2 = 0)
Sqrt(a) == IF a = Zero THEN Zero ELSE <<1, a[2] \div 2>>
=============================================================================
