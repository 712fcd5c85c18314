------------------------------ MODULE MCWords ------------------------------
(***************************************************************************)
(* The word operators against the integers of TLA+, for all pairs of words *)
(* of up to three digits (NMax) and all shift counts: the oracle under     *)
(* every other definition of the specification.                            *)
(***************************************************************************)
EXTENDS Words
CONSTANT NMax
VARIABLES n, ux, uy

RECURSIVE UR(_, _)
UR(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + Base * UR(x, i + 1)
U(x) == UR(x, 1)
SS(x) == IF x[Len(x)] >= Half THEN U(x) - Base^Len(x) ELSE U(x)
V(x, sgn) == IF sgn THEN SS(x) ELSE U(x)

Init == \E m \in 1..NMax : n = m /\ ux \in 0..(Base^m - 1) /\ uy \in 0..(Base^m - 1)
Next == UNCHANGED <<n, ux, uy>>

x == Nat2W(ux, n)
y == Nat2W(uy, n)
M == Base^n
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

Arithmetic ==
    /\ U(x) = ux /\ IsWord(x, n)
    /\ U(Add(x, y)) = (ux + uy) % M
    /\ U(Sub(x, y)) = (ux - uy) % M
    /\ U(Minus(x)) = (0 - ux) % M
    /\ U(Inv(x)) = M - 1 - ux
    /\ U(Mul(x, y)) = (ux * uy) % M
    /\ LtU(x, y) <=> ux < uy
    /\ LtS(x, y) <=> SS(x) < SS(y)
    /\ IsZero(x) <=> ux = 0
Extension ==
    \A s \in BOOLEAN, w \in n..(n + 2) :
        /\ V(Ext(x, s, w), s) = V(x, s)
        /\ U(Trunc(Ext(x, s, w), n)) = ux
        /\ U(MaxOf(n, s, n)) = (IF s THEN M \div 2 - 1 ELSE M - 1)
        /\ SS(MinOf(n, s, w)) = (IF s THEN 0 - M \div 2 ELSE 0)
Saturation ==
    \A s \in BOOLEAN, w \in 1..n :
        LET hi == IF s THEN (Base^w) \div 2 - 1 ELSE Base^w - 1
            lo == IF s THEN 0 - (Base^w) \div 2 ELSE 0
        IN  (s \/ w < n) => V(Sat(x, w, s), s) = Clamp(SS(x), lo, hi)
ShiftsAndBits ==
    /\ \A k \in 0..(DB * n + 1) :
        /\ U(Shl(x, k)) = (ux * 2^k) % M
        /\ U(Shr(x, k, FALSE)) = ux \div 2^k
        /\ SS(Shr(x, k, TRUE)) = SS(x) \div 2^k
        /\ Bit(x, k) = (ux \div 2^k) % 2
        /\ AnyBelow(x, k) <=> (ux % 2^k) # 0
        /\ U(Pow2(k, n)) = (2^k) % M
    /\ 2^BitLen(x) > ux /\ (ux > 0 => 2^(BitLen(x) - 1) <= ux)
    /\ \A k \in 0..(DB * n - 1) :
        /\ Bit(WAnd(x, y), k) = Bit(x, k) * Bit(y, k)
        /\ Bit(WXor(x, y), k) = (Bit(x, k) + Bit(y, k)) % 2
        /\ Bit(WOr(x, y), k) = (IF Bit(x, k) + Bit(y, k) > 0 THEN 1 ELSE 0)
=============================================================================
