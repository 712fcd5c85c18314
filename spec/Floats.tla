------------------------------- MODULE Floats ------------------------------
(***************************************************************************)
(* IEEE-754 binary32 and binary64 on byte images, round to nearest even.   *)
(*                                                                         *)
(* A float is the little-endian byte sequence of its encoding.  A finite   *)
(* non-NaN value is unpacked to sign s, natural significand m (a Word) and *)
(* exponent e of its least significant bit: (-1)^s * m * 2^e, exactly.     *)
(* Operations compute the exact result (m', e', sticky), where sticky says *)
(* that the exact value lies strictly between m' and m'+1 units, and then  *)
(* round once.  NaN results are represented by one quiet NaN; Conforms in  *)
(* Neon.tla accepts any NaN for it.                                        *)
(*                                                                         *)
(* Instantiated only with DB = 8 (a digit is a byte).                      *)
(***************************************************************************)
EXTENDS Words

F32 == [bytes |-> 4, md |-> 3, p |-> 24, bias |-> 127]
F64 == [bytes |-> 8, md |-> 7, p |-> 53, bias |-> 1023]
Fmt(b) == IF b = 4 THEN F32 ELSE F64        \* md: digits of a significand

QMin(f) == 2 - f.bias - f.p                 \* exponent of the smallest subnormal
EMax(f) == 2 * f.bias + 1                   \* biased exponent of inf and NaN

FSign(x) == IF x[Len(x)] >= 128 THEN 1 ELSE 0
FExp(x)  == IF Len(x) = 4 THEN (x[4] % 128) * 2 + (x[3] \div 128)
                          ELSE (x[8] % 128) * 16 + (x[7] \div 16)
FracZero(x) == IF Len(x) = 4 THEN x[1] = 0 /\ x[2] = 0 /\ (x[3] % 128) = 0
               ELSE (x[7] % 16) = 0 /\ \A i \in 1..6 : x[i] = 0

IsSpecial(x) == FExp(x) = (IF Len(x) = 4 THEN 255 ELSE 2047)
IsNaN(x)   == IsSpecial(x) /\ ~FracZero(x)
IsInf(x)   == IsSpecial(x) /\ FracZero(x)
FIsZero(x) == FExp(x) = 0 /\ FracZero(x)

(* Encodings of special values. *)
WithSign(f, s, bytes) == [bytes EXCEPT ![f.bytes] = (@ % 128) + 128 * s]
FZero(f, s) == IF f.bytes = 4 THEN <<0, 0, 0, 128 * s>> ELSE <<0, 0, 0, 0, 0, 0, 0, 128 * s>>
FInf(f, s) == IF f.bytes = 4 THEN <<0, 0, 128, 127 + 128 * s>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127 + 128 * s>>
FNaN(f) == IF f.bytes = 4 THEN <<0, 0, 192, 127>> ELSE <<0, 0, 0, 0, 0, 0, 248, 127>>

(* Significand (f.md digits) and exponent of a finite value. *)
Mant(x) == LET h == IF FExp(x) = 0 THEN 0 ELSE 1 IN
    IF Len(x) = 4 THEN <<x[1], x[2], (x[3] % 128) + 128 * h>>
                  ELSE SubSeq(x, 1, 6) \o <<(x[7] % 16) + 16 * h>>
MExp(x) == QMin(Fmt(Len(x))) + (IF FExp(x) = 0 THEN 0 ELSE FExp(x) - 1)

(* The one rounding step: the encoding nearest to (-1)^s * m * 2^e, where    *)
(* m is a word of any length and sticky adds something below one unit of m. *)
Round(f, s, m, e, sticky) ==
    LET q     == LET a == BitLen(m) + e - f.p IN IF a > QMin(f) THEN a ELSE QMin(f)
        k     == q - e                       \* bits to drop
        base  == IF k <= 0 THEN Trunc(Shl(Ext(m, FALSE, f.bytes), -k), f.bytes)
                 ELSE IF k > DB * Len(m) THEN Zero(f.bytes)
                 ELSE Trunc(Ext(Shr(m, k, FALSE), FALSE, f.bytes), f.bytes)
        guard == k > 0 /\ Bit(m, k - 1) = 1
        below == sticky \/ (k > 1 /\ AnyBelow(m, k - 1))
        up    == guard /\ (below \/ (base[1] % 2) = 1)
        be    == q - QMin(f)                 \* exponent field is be + 1 for a normal result
        \* the encoding is the significand plus be units of the exponent field,
        \* a carry out of the significand being a carry into the exponent
        fld   == IF f.bytes = 4 THEN <<0, 0, (be % 2) * 128, be \div 2>>
                                ELSE <<0, 0, 0, 0, 0, 0, (be % 16) * 16, be \div 16>>
    IN  IF be >= EMax(f) - 1 THEN FInf(f, s)
        ELSE WithSign(f, s, AddC(base, fld, 1, IF up THEN 1 ELSE 0, <<>>))

(* Exact sum of (-1)^sx mx 2^ex and (-1)^sy my 2^ey, both nonzero and of at *)
(* most pp bits, then rounded.  When the exponents are further than pp + 3  *)
(* apart, the operand with the larger one has at least pp - 1 significant   *)
(* bits (subnormals have the smallest exponent), so replacing the other one *)
(* by a sticky bit there cannot change the rounded result.                  *)
RoundedSum(f, pp, sx, mx, ex, sy, my, ey) ==
    LET xh == ex >= ey
        sh == IF xh THEN sx ELSE sy
        mh == IF xh THEN mx ELSE my
        eh == IF xh THEN ex ELSE ey
        sl == IF xh THEN sy ELSE sx
        ml == IF xh THEN my ELSE mx
        el == IF xh THEN ey ELSE ex
        d  == eh - el
    IN  IF d <= pp + 3
        THEN LET w  == (pp + d) \div DB + 2
                 a  == Shl(Ext(mh, FALSE, w), d)
                 bb == Ext(ml, FALSE, w)
             IN  IF sh = sl THEN Round(f, sh, Add(a, bb), el, FALSE)
                 ELSE IF a = bb THEN FZero(f, 0)
                 ELSE IF LtU(bb, a) THEN Round(f, sh, Sub(a, bb), el, FALSE)
                 ELSE Round(f, sl, Sub(bb, a), el, FALSE)
        ELSE LET w == (pp + 3) \div DB + 2
                 a == Shl(Ext(mh, FALSE, w), 3)
             IN  IF sh = sl THEN Round(f, sh, a, eh - 3, TRUE)
                 ELSE Round(f, sh, Sub(a, Pow2(0, w)), eh - 3, TRUE)

FAddS(x, y, flip) ==                          \* x + y, or x - y when flip
    LET f  == Fmt(Len(x))
        sx == FSign(x)
        sy == IF flip THEN 1 - FSign(y) ELSE FSign(y)
    IN  IF IsNaN(x) \/ IsNaN(y) THEN FNaN(f)
        ELSE IF IsSpecial(x) THEN IF IsSpecial(y) /\ sx # sy THEN FNaN(f) ELSE FInf(f, sx)
        ELSE IF IsSpecial(y) THEN FInf(f, sy)
        ELSE IF FIsZero(x) THEN IF FIsZero(y) THEN FZero(f, IF sx = 1 /\ sy = 1 THEN 1 ELSE 0)
                                ELSE WithSign(f, sy, y)
        ELSE IF FIsZero(y) THEN x
        ELSE RoundedSum(f, f.p, sx, Mant(x), MExp(x), sy, Mant(y), MExp(y))
FAdd(x, y) == FAddS(x, y, FALSE)
FSub(x, y) == FAddS(x, y, TRUE)

MantProd(x, y) ==                             \* exact product of the significands
    LET n == 2 * Fmt(Len(x)).md IN Mul(Ext(Mant(x), FALSE, n), Ext(Mant(y), FALSE, n))

FMul(x, y) ==
    LET f == Fmt(Len(x))
        s == (FSign(x) + FSign(y)) % 2
    IN  IF IsNaN(x) \/ IsNaN(y) THEN FNaN(f)
        ELSE IF IsSpecial(x) \/ IsSpecial(y) THEN IF FIsZero(x) \/ FIsZero(y) THEN FNaN(f) ELSE FInf(f, s)
        ELSE IF FIsZero(x) \/ FIsZero(y) THEN FZero(f, s)
        ELSE Round(f, s, MantProd(x, y), MExp(x) + MExp(y), FALSE)

(* Long division in base 2^DB (DB = 8).  r < d < 2^(DB*Len(d)), the top      *)
(* digit of d is at least 128; n more quotient digits: <<q, nonzero rest>>.  *)
(* The estimate from the leading digits is at most 2 too large.             *)
DigitTimes(d, k) == Mul(d, Nat2W(k, Len(d)))
RECURSIVE Settle(_, _, _)
Settle(k, r, d) ==                            \* largest digit <= k with digit*d <= r
    LET t == DigitTimes(d, k) IN IF LtU(r, t) THEN Settle(k - 1, r, d) ELSE <<k, Sub(r, t)>>
RECURSIVE DivR(_, _, _, _)
DivR(r, d, n, q) ==                           \* r and d have one spare digit on top
    IF n = 0 THEN <<q, ~IsZero(r)>>
    ELSE LET m  == Len(d) - 1
             r2 == TLCEval(<<0>> \o SubSeq(r, 1, m))
             e  == (r2[m + 1] * 65536 + r2[m] * 256 + r2[m - 1]) \div (d[m] * 256 + d[m - 1])
             st == TLCEval(Settle(IF e > 255 THEN 255 ELSE e, r2, d))
         IN  DivR(st[2], d, n - 1, <<st[1]>> \o q)

FDiv(x, y) ==
    LET f == Fmt(Len(x))
        s == (FSign(x) + FSign(y)) % 2
    IN  IF IsNaN(x) \/ IsNaN(y) THEN FNaN(f)
        ELSE IF IsSpecial(x) THEN IF IsSpecial(y) THEN FNaN(f) ELSE FInf(f, s)
        ELSE IF IsSpecial(y) THEN FZero(f, s)
        ELSE IF FIsZero(y) THEN IF FIsZero(x) THEN FNaN(f) ELSE FInf(f, s)
        ELSE IF FIsZero(x) THEN FZero(f, s)
        ELSE LET \* both significands shifted to the top of md + 1 digits, x one bit
                 \* below y, in words with one more digit on top
                 top == DB * (f.md + 1)
                 kx == TLCEval(top - 1 - BitLen(Mant(x)))
                 ky == TLCEval(top - BitLen(Mant(y)))
                 sx == TLCEval(Shl(Ext(Mant(x), FALSE, f.md + 2), kx))
                 sy == TLCEval(Shl(Ext(Mant(y), FALSE, f.md + 2), ky))
                 n  == f.md + 1                \* quotient digits, more than p + 2 bits
                 qr == TLCEval(DivR(sx, sy, n, <<>>))
             IN  Round(f, s, qr[1], (MExp(x) - kx) - (MExp(y) - ky) - DB * n, qr[2])

(* Order of non-NaN values; -0 below +0 (used by min and max). *)
FLtTotal(x, y) ==
    IF FSign(x) # FSign(y) THEN FSign(x) = 1
    ELSE IF FSign(x) = 0 THEN LtU(x, y) ELSE LtU(y, x)
FLt(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ ~(FIsZero(x) /\ FIsZero(y)) /\ FLtTotal(x, y)
FMax(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN FNaN(Fmt(Len(x))) ELSE IF FLtTotal(x, y) THEN y ELSE x
FMin(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN FNaN(Fmt(Len(x))) ELSE IF FLtTotal(x, y) THEN x ELSE y

(* Conversions. *)
FromInt(f, x, sgn) ==
    LET neg == sgn /\ Neg(x)
        v   == Ext(x, sgn, Len(x) + 1)
    IN  IF IsZero(x) THEN FZero(f, 0)
        ELSE Round(f, IF neg THEN 1 ELSE 0, IF neg THEN Minus(v) ELSE v, 0, FALSE)

(* Rounded toward zero or (near) to nearest even, then saturated to n bytes *)
ToInt(x, n, sgn, near) ==
    LET w == 12                                \* digits; holds every value below 2^88
        m == Ext(Mant(x), FALSE, w)
        e == MExp(x)
        t == IF e >= 0 THEN Shl(m, e) ELSE IF -e > DB * w THEN Zero(w) ELSE Shr(m, -e, FALSE)
        g == e < 0 /\ -e <= DB * w /\ Bit(m, -e - 1) = 1
        b == e < 0 /\ AnyBelow(m, -e - 1)
        a == IF near /\ g /\ (b \/ Bit(t, 0) = 1) THEN Add(t, Pow2(0, w)) ELSE t
    IN  IF IsNaN(x) THEN Zero(n)
        ELSE IF IsInf(x) \/ e > 30             \* certainly out of range
             THEN Trunc(IF FSign(x) = 1 THEN MinOf(n, sgn, w) ELSE MaxOf(n, sgn, w), n)
        ELSE Sat(IF FSign(x) = 1 THEN Minus(a) ELSE a, n, sgn)

(***************************************************************************)
(* Reciprocal estimate and step (Arm ARM: FPRecipEstimate, FPRecipStep-    *)
(* Fused; binary32, round to nearest, no flushing of subnormals).          *)
(***************************************************************************)
RecipEstimate(a) ==                           \* 256 <= a < 512
    LET a2 == a * 2 + 1
        b  == (2^19) \div a2
    IN  (b + 1) \div 2

F32Pack(s, ex, frac) ==                       \* frac < 2^23
    <<frac % 256, (frac \div 256) % 256, (frac \div 65536) + 128 * (ex % 2), (ex \div 2) + 128 * s>>

FRecpe(x) ==
    LET s  == FSign(x)
        ex == FExp(x)
        fr == x[1] + 256 * x[2] + 65536 * (x[3] % 128)
    IN  IF IsNaN(x) THEN FNaN(F32)
        ELSE IF IsInf(x) THEN FZero(F32, s)
        ELSE IF ex = 0 /\ fr < 2^21 THEN FInf(F32, s)        \* |x| < 2^-128, zero included
        ELSE LET \* normalise a subnormal: fraction and exponent of 1.f * 2^(e-127)
                 nf == IF ex # 0 THEN fr
                       ELSE IF fr >= 2^22 THEN (fr * 2) % (2^23) ELSE (fr * 4) % (2^23)
                 ne == IF ex # 0 THEN ex ELSE IF fr >= 2^22 THEN 0 ELSE -1
                 est == RecipEstimate(256 + (nf \div 2^15))  \* 9 bits, 256..511
                 re  == 253 - ne
                 rf  == (est % 256) * 2^15
             IN  IF re = 0 THEN F32Pack(s, 0, 2^22 + rf \div 2)
                 ELSE IF re = -1 THEN F32Pack(s, 0, 2^21 + rf \div 4)
                 ELSE F32Pack(s, re, rf)

FTwo == <<0, 0, 0, 64>>
FRecps(x, y) ==                               \* 2 - x*y, one rounding
    LET f == F32
        s == (1 + FSign(x) + FSign(y)) % 2    \* sign of -(x*y)
    IN  IF IsNaN(x) \/ IsNaN(y) THEN FNaN(f)
        ELSE IF (IsInf(x) /\ FIsZero(y)) \/ (FIsZero(x) /\ IsInf(y)) THEN FTwo
        ELSE IF IsInf(x) \/ IsInf(y) THEN FInf(f, s)
        ELSE IF FIsZero(x) \/ FIsZero(y) THEN FTwo
        ELSE RoundedSum(f, 48, 0, Pow2(47, 6), -46, s, MantProd(x, y), MExp(x) + MExp(y))
=============================================================================
