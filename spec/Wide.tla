-------------------------------- MODULE Wide --------------------------------
(* Integers beyond TLC's 32 bits.                                            *)
EXTENDS Num

Limb == 16777216      \* 2^24
Half == 4096          \* 2^12

\* The product of two naturals below 2^24 as <<high, low>> in base 2^24.
Prod(a, b) ==
    LET a1 == a \div Half   a0 == a % Half
        b1 == b \div Half   b0 == b % Half
        mid == a1 * b0 + a0 * b1
        low == a0 * b0 + (mid % Half) * Half
    IN <<a1 * b1 + (mid \div Half) + (low \div Limb), low % Limb>>

\* The difference of two such numbers when it is small, else a number too large to be any expected one.
DiffP(x, y) == IF Abs(x[1] - y[1]) > 40 THEN (IF x[1] > y[1] THEN Huge ELSE -Huge)
               ELSE (x[1] - y[1]) * Limb + (x[2] - y[2])

(* A fixed-point number: limbs <<l1, ..., ln, frac>>, all in 0..Limb-1 except *)
(* the first, which carries the sign (two's complement), frac in units of     *)
(* 2^-24.                                                                     *)
WLess(x, y) == LexLess(x, y)
\* Adds one to the integer part.
RECURSIVE Carry(_, _)
Carry(x, i) == IF i = 1 THEN [x EXCEPT ![1] = @ + 1]
               ELSE IF x[i] + 1 < Limb THEN [x EXCEPT ![i] = @ + 1]
               ELSE Carry([x EXCEPT ![i] = 0], i - 1)
\* Drops the fraction, towards zero.
WTrunc(x) == LET n == Len(x) whole == [x EXCEPT ![n] = 0] IN
             IF x[n] # 0 /\ x[1] < 0 THEN Carry(whole, n - 1) ELSE whole
WClamp(x, lo, hi) == IF WLess(x, lo) THEN lo ELSE IF WLess(hi, x) THEN hi ELSE x

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* 2^b and 2^b - 1 and -2^b as six-limb numbers (five integer limbs and the fraction).
WPow(b)  == [i \in 1..6 |-> IF i <= 5 /\ (5 - i) = b \div 24 THEN Pow2(b % 24) ELSE 0]
WBelow(b) == [i \in 1..6 |-> IF i = 6 THEN 0
                            ELSE IF 5 - i < b \div 24 THEN Limb - 1
                            ELSE IF 5 - i = b \div 24 THEN Pow2(b % 24) - 1 ELSE 0]
WNegPow(b) == [i \in 1..6 |-> IF i = 6 \/ 5 - i < b \div 24 THEN 0
                            ELSE IF 5 - i = b \div 24 THEN (IF i = 1 THEN -Pow2(b % 24) ELSE Limb - Pow2(b % 24))
                            ELSE IF i = 1 THEN -1 ELSE Limb - 1]
WZero == [i \in 1..6 |-> 0]

-----------------------------------------------------------------------------
(* Signed numbers <<h, l>>, h * 2^24 + l with 0 <= l < 2^24.                  *)
SInt(n) == <<n \div Limb, n % Limb>>
SZero == <<0, 0>>
SNeg(x) == IF x[2] = 0 THEN <<-x[1], 0>> ELSE <<-x[1] - 1, Limb - x[2]>>
SAdd(x, y) == LET l == x[2] + y[2] IN <<x[1] + y[1] + (l \div Limb), l % Limb>>
SSub(x, y) == SAdd(x, SNeg(y))
\* The product of two integers smaller than 2^24.
SMul(a, b) == LET p == Prod(Abs(a), Abs(b)) IN IF (a < 0) = (b < 0) THEN p ELSE SNeg(p)
\* x times a natural w below 2^24.
STimes(x, w) == SAdd(<<x[1] * w, 0>>, Prod(x[2], w))
\* x / n, rounded, for n below 2^19 and a quotient that is an integer of TLC's.
SDivRound(x, n) ==
    LET y == SAdd(x, SInt(n \div 2))
        r == y[1] % n
        r2 == (r * 4096 + y[2] \div 4096)
    IN (y[1] \div n) * Limb + (r2 \div n) * 4096 + ((r2 % n) * 4096 + (y[2] % 4096)) \div n
SLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
SLeq(x, y) == ~SLess(y, x)
SAbs(x) == IF x[1] < 0 THEN SNeg(x) ELSE x
SNear(x, y, tol) == SLeq(SAbs(SSub(x, y)), tol)
SSum(s) == FoldLeft(SAdd, SZero, s)
\* x divided by 2^k, rounding down, k <= 24.
SShr(x, k) == <<x[1] \div Pow2(k), (x[1] % Pow2(k)) * Pow2(24 - k) + x[2] \div Pow2(k)>>
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
SBits(x) == IF x[1] > 0 THEN 24 + Bits(x[1]) ELSE Bits(x[2])
\* x divided by 2^k for any k, as an integer; the result must be small.
SDown(x, k) == LET y == IF k <= 24 THEN SShr(x, k) ELSE SShr(SShr(x, 24), Min2(24, k - 24)) IN y[1] * Limb + y[2]
=============================================================================
