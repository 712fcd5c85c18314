------------------------------ MODULE MCFloat ------------------------------
(***************************************************************************)
(* Laws of IEEE-754 arithmetic that the float operators of the             *)
(* specification must satisfy, on a grid of encodings that has every       *)
(* exponent boundary and several significands at each: a second, mostly    *)
(* algebraic, account of what Floats computes digit by digit.              *)
(***************************************************************************)
EXTENDS Intrinsics
CONSTANTS B,                    \* 4 or 8 bytes
          Law                   \* which group of laws
VARIABLES x, y

f == Fmt(B)
Pack(s, ex, fr) ==              \* fr: the fraction bytes, low first, top one partial
    IF B = 4 THEN <<fr[1], fr[2], fr[3] + 128 * (ex % 2), ex \div 2 + 128 * s>>
    ELSE SubSeq(fr, 1, 6) \o <<fr[7] + 16 * (ex % 16), ex \div 16 + 128 * s>>
Top == IF B = 4 THEN 127 ELSE 15
Fr(lo, hi) == IF B = 4 THEN <<lo, IF lo > 1 THEN lo ELSE 0, hi>> ELSE <<lo, 0, 0, IF lo > 1 THEN lo ELSE 0, 0, 0, hi>>
AllOnes == IF B = 4 THEN <<255, 255, 127>> ELSE <<255, 255, 255, 255, 255, 255, 15>>
Fracs == {Fr(0, 0), Fr(1, 0), AllOnes, Fr(0, Top - Top \div 2), Fr(1, Top - Top \div 2)}
Exps == {0, 1, 2, f.bias - f.p - 1, f.bias - f.p, f.bias - 1, f.bias, f.bias + 1, f.bias + f.p - 1, f.bias + f.p, 2 * f.bias - 1, 2 * f.bias, 2 * f.bias + 1}
Grid == {Pack(s, e, fr) : s \in {0, 1}, e \in Exps, fr \in Fracs}
Small == {Pack(s, e, fr) : s \in {0, 1}, e \in {0, 1, f.bias - 1, f.bias, f.bias + f.p, 2 * f.bias, 2 * f.bias + 1}, fr \in Fracs}
Thin == {Pack(s, e, fr) : s \in {0, 1}, e \in {0, f.bias - 1, f.bias + f.p, 2 * f.bias + 1}, fr \in {Fr(0, 0), Fr(1, 0), AllOnes}}
Init == IF Law = "thin" THEN x \in Grid /\ y \in Thin
        ELSE IF Law = "unary" THEN x \in Grid /\ y = x
        ELSE x \in Grid /\ y \in Small
Next == UNCHANGED <<x, y>>

Same(p, q) == p = q \/ (IsNaN(p) /\ IsNaN(q))
Flip(p) == WithSign(f, 1 - FSign(p), p)
One == Pack(0, f.bias, Fr(0, 0))
Two == Pack(0, f.bias + 1, Fr(0, 0))
HalfOf == Pack(0, f.bias - 1, Fr(0, 0))
Fin(p) == ~IsSpecial(p)
Abs(p) == WithSign(f, 0, p)
Le(p, q) == FLt(p, q) \/ p = q \/ (FIsZero(p) /\ FIsZero(q))

Arith ==
    /\ Same(FAdd(x, y), FAdd(y, x)) /\ Same(FMul(x, y), FMul(y, x))
    /\ Same(FSub(x, y), FAdd(x, IF IsNaN(y) THEN y ELSE Flip(y)))
    /\ FAdd(x, y) \in {FZero(f, 0)} \/ Same(FAdd(Flip(x), Flip(y)), IF IsNaN(FAdd(x, y)) THEN FNaN(f) ELSE IF FIsZero(FAdd(x, y)) THEN FZero(f, 0) ELSE Flip(FAdd(x, y))) \/ (FIsZero(x) /\ FIsZero(y))
    /\ LET m == FMul(x, y) IN Same(FMul(Flip(x), y), IF IsNaN(m) THEN m ELSE Flip(m))
    /\ LET d == FDiv(x, y) IN Same(FDiv(x, Flip(y)), IF IsNaN(d) THEN d ELSE Flip(d))
    \* Sterbenz: y/2 <= x <= 2y implies x - y exact, so adding y back is x
    /\ (Fin(x) /\ Fin(y) /\ FSign(x) = 0 /\ FSign(y) = 0 /\ Le(FMul(HalfOf, y), x) /\ Le(x, FMul(Two, y)) /\ Le(y, FMul(Two, x)))
         => FAdd(FSub(x, y), y) = IF FIsZero(x) /\ FIsZero(y) THEN FZero(f, 0) ELSE x
    \* subtraction of distinct finite numbers is never zero (gradual underflow)
    /\ (Fin(x) /\ Fin(y)) => (FIsZero(FSub(x, y)) <=> (x = y \/ (FIsZero(x) /\ FIsZero(y))))
    \* rounding is monotone: sign and order survive
    /\ (Fin(x) /\ Fin(y)) => (FLt(x, y) <=> FSign(FSub(x, y)) = 1 /\ ~FIsZero(FSub(x, y)))
    /\ (Fin(x) /\ Fin(y) /\ FSign(y) = 0) => Le(x, FAdd(x, y)) /\ Le(FSub(x, y), x)
    /\ (Fin(x) /\ Fin(y) /\ Le(Abs(y), One)) => Le(Abs(FMul(x, y)), Abs(x))
    /\ (Fin(x) /\ Fin(y) /\ ~FIsZero(y) /\ Le(One, Abs(y))) => Le(Abs(FDiv(x, y)), Abs(x))
    \* quotients of products: powers of two commute with rounding away from underflow
    /\ (Fin(x) /\ Fin(y) /\ ~IsSpecial(FMul(x, y)) /\ FExp(FMul(x, y)) > 2 /\ FExp(y) < 2 * f.bias /\ FExp(FMul(x, y)) < 2 * f.bias)
         => FMul(x, FMul(Two, y)) = FMul(Two, FMul(x, y))
    /\ IsNaN(FMul(x, y)) <=> (IsNaN(x) \/ IsNaN(y) \/ (IsInf(x) /\ FIsZero(y)) \/ (FIsZero(x) /\ IsInf(y)))
    /\ IsNaN(FAdd(x, y)) <=> (IsNaN(x) \/ IsNaN(y) \/ (IsInf(x) /\ IsInf(y) /\ x # y))
    /\ IsNaN(FDiv(x, y)) <=> (IsNaN(x) \/ IsNaN(y) \/ (IsInf(x) /\ IsInf(y)) \/ (FIsZero(x) /\ FIsZero(y)))
Order ==
    /\ Same(FMax(x, y), FMax(y, x)) /\ Same(FMin(x, y), FMin(y, x))
    /\ (IsNaN(x) \/ IsNaN(y)) => ~FLt(x, y) /\ IsNaN(FMax(x, y)) /\ IsNaN(FMin(x, y))
    /\ (~IsNaN(x) /\ ~IsNaN(y)) => /\ {FMax(x, y), FMin(x, y)} = {x, y}
                                   /\ ~FLt(FMax(x, y), FMin(x, y))
                                   /\ (FLt(x, y) \/ FLt(y, x) \/ x = y \/ (FIsZero(x) /\ FIsZero(y)))
                                   /\ FLt(x, y) => ~FLt(y, x)
                                   /\ FLt(x, y) <=> FLt(Flip(y), Flip(x))
    /\ (FIsZero(x) /\ FIsZero(y)) => /\ FSign(FMax(x, y)) = (IF FSign(x) = 1 /\ FSign(y) = 1 THEN 1 ELSE 0)
                                     /\ FSign(FMin(x, y)) = (IF FSign(x) = 1 \/ FSign(y) = 1 THEN 1 ELSE 0)
Unary ==
    /\ ~IsNaN(x) => /\ FMul(x, One) = x /\ FDiv(x, One) = x
                    /\ FAdd(x, FZero(f, 1)) = x
                    /\ FMul(x, Two) = FAdd(x, x)
                    /\ FDiv(x, Two) = FMul(x, HalfOf)
    /\ (Fin(x) /\ ~FIsZero(x)) => FDiv(x, x) = One /\ FSub(x, x) = FZero(f, 0) /\ IsInf(FDiv(x, FZero(f, 0)))
    \* next representable value: the ulp of x is the difference, and half of it rounds to even
    /\ (Fin(x) /\ FExp(x) > f.p + 1 /\ FExp(x) < 2 * f.bias - 1) =>
          LET nx == AddC(x, Zero(B), 1, 1, <<>>)                     \* one encoding further from zero
              u  == FSub(nx, x)
              h  == FMul(u, HalfOf)
              q  == FMul(h, HalfOf)
          IN /\ FAdd(x, u) = nx
             /\ FAdd(x, h) = IF (x[1] % 2) = 0 THEN x ELSE nx
             /\ FAdd(x, q) = x
             /\ FAdd(x, FAdd(h, q)) = nx
    \* integers
    /\ B = 4 => /\ Same(FRecpe(Flip(x)), IF IsNaN(x) THEN FNaN(f) ELSE Flip(FRecpe(x)))
                /\ FIsZero(x) => IsInf(FRecpe(x))
                /\ IsInf(x) => FRecpe(x) = FZero(f, FSign(x))
                \* within 2^-8 relatively: |x * estimate - 1| <= 2^-8 for normal results
                /\ (FExp(x) \in 1..252) => LET p == FMul(x, FRecpe(x)) IN
                      Le(Abs(FSub(p, One)), Pack(0, f.bias - 8, Fr(0, 0)))
                \* recps: identities, and agreement with the two-rounding form when the product is exact
                /\ ~IsNaN(x) => /\ (FIsZero(x) => FRecps(x, FInf(f, 0)) = FTwo)
                                /\ FRecps(x, One) = FSub(FTwo, x)
                                /\ FRecps(Two, x) = FSub(FTwo, FMul(Two, x))
                                /\ FRecps(x, FZero(f, 0)) = FTwo
(* both significands have at most 12 bits and nothing under- or overflows *)
ExactProduct == /\ Fin(x) /\ Fin(y) /\ FExp(x) > 0 /\ FExp(y) > 0
                /\ x[1] = 0 /\ y[1] = 0 /\ (x[2] % 16) = 0 /\ (y[2] % 16) = 0
                /\ FExp(FMul(x, y)) \in 1..(2 * f.bias)
(* recps is 2 - xy rounded once: it differs from the form rounded twice by  *)
(* at most one encoding when the product is rounded, and not at all otherwise *)
Steps ==
    B = 4 => /\ Same(FRecps(x, y), FRecps(y, x))
             /\ Same(FRecps(Flip(x), Flip(y)), FRecps(x, y))
             /\ ExactProduct =>
                   FRecps(x, y) = FSub(FTwo, FMul(x, y))
             /\ (IsNaN(x) \/ IsNaN(y)) <=> IsNaN(FRecps(x, y))
(* Conversions between f32 and 32-bit, f64 and 64-bit integers. *)
I0 == Zero(B)
ToI(p, near) == ToInt(p, B, TRUE, near)
OfI(v) == FromInt(f, v, TRUE)
IntLimit == OfI(Trunc(MinOf(B, TRUE, B), B))        \* -2^(8B-1), exact
Convert ==
    /\ IsNaN(x) => ToI(x, FALSE) = I0
    /\ (~IsNaN(x) /\ ~FLt(x, Flip(IntLimit))) => ToI(x, FALSE) = Trunc(MaxOf(B, TRUE, B), B) /\ ToI(x, TRUE) = ToI(x, FALSE)
    /\ (~IsNaN(x) /\ ~FLt(IntLimit, x)) => ToI(x, FALSE) = Trunc(MinOf(B, TRUE, B), B) /\ ToI(x, TRUE) = ToI(x, FALSE)
    /\ (~IsNaN(x) /\ FLt(IntLimit, x) /\ FLt(x, Flip(IntLimit))) =>
         /\ ToI(Flip(x), FALSE) = Minus(ToI(x, FALSE))
         /\ ToI(Flip(x), TRUE) = Minus(ToI(x, TRUE))
         \* truncation: towards zero, by less than one
         /\ FExp(x) <= f.bias + f.p - 1 => LET d == FSub(x, OfI(ToI(x, FALSE))) IN FLt(Abs(d), One) /\ (FIsZero(d) \/ FSign(d) = FSign(x))
         \* nearest: by at most a half, an exact half to even
         /\ FExp(x) <= f.bias + f.p - 1 => LET n == ToI(x, TRUE) d == FSub(x, OfI(n)) IN Le(Abs(d), HalfOf) /\ (Abs(d) = HalfOf => (n[1] % 2) = 0)
         \* integral values convert both ways unchanged
         /\ FExp(x) > f.bias + f.p - 1 => OfI(ToI(x, FALSE)) = x /\ ToI(x, TRUE) = ToI(x, FALSE)
    /\ (~IsNaN(x) /\ ~IsNaN(y) /\ FLt(x, y)) => ~Lt(ToI(y, FALSE), ToI(x, FALSE), TRUE) /\ ~Lt(ToI(y, TRUE), ToI(x, TRUE), TRUE)
    \* the encodings as integers: conversion is monotone, nearest, odd
    /\ LET v == OfI(x) w == OfI(y) IN
         /\ LtS(x, y) => Le(v, w)
         /\ (BitLen(IF Neg(x) THEN Minus(x) ELSE x) <= f.p) => ToI(v, FALSE) = x
         /\ (x # Minus(x)) => OfI(Minus(x)) = Flip(v)
         /\ x # I0 => FSign(v) = (IF Neg(x) THEN 1 ELSE 0)
    /\ OfI(I0) = FZero(f, 0)
=============================================================================
