-------------------------------- MODULE Ref --------------------------------
(***************************************************************************)
(* A second definition of the integer intrinsics, on the integers of TLA+, *)
(* lane by lane, written from the statements of the properties rather than *)
(* from the words of Intrinsics.  MCLanes compares the two exhaustively on *)
(* words of 2-bit digits (an "8-bit" lane has 2 bits).                     *)
(***************************************************************************)
EXTENDS Intrinsics, Catalog

RECURSIVE UR(_, _)
UR(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + Base * UR(x, i + 1)
U(x) == UR(x, 1)                                        \* natural reading
SS(x) == IF Neg(x) THEN U(x) - 2^(DB * Len(x)) ELSE U(x)  \* two's complement reading
IntOf(t, x) == IF Sgn(t) THEN SS(x) ELSE U(x)
Wrap(v, bits) == v % (2^bits)
LoOf(t) == IF Sgn(t) THEN 0 - 2^(Bits(t) - 1) ELSE 0
HiOf(t) == IF Sgn(t) THEN 2^(Bits(t) - 1) - 1 ELSE 2^Bits(t) - 1
Clamp(t, v) == IF v < LoOf(t) THEN LoOf(t) ELSE IF v > HiOf(t) THEN HiOf(t) ELSE v
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
BitAt(v, i) == (v \div 2^i) % 2
RECURSIVE SumTo(_, _)
SumTo(F(_), i) == IF i < 0 THEN 0 ELSE F(i) + SumTo(F, i - 1)
MapBits(F(_), bits) == LET G(i) == F(i) * 2^i IN SumTo(G, bits - 1)

(* Lane j of the result of op as an integer (modulo 2^bits of the lane). *)
RefLane(op, a, k, j) ==
    LET f  == op.f
        t  == op.t
        ar == DataArgs(op)
        rt == Sig(op).res.t
        n  == Image(Sig(op).res) \div EB(rt)            \* result lanes
        bt == Bits(t)
        h  == bt \div 2
        A(i, l) == IntOf(ar[i].t, Lane(a[i], EB(ar[i].t), l))
        UA(i, l) == U(Lane(a[i], EB(ar[i].t), l))
        m  == Len(a[1]) \div EB(ar[1].t)
        AB(l) == IF l < m THEN A(1, l) ELSE A(2, l - m) \* a[1] followed by a[2]
    IN
    CASE f \in {"add", "addl", "addw"} -> A(1, j) + A(2, j)
      [] f \in {"sub", "subl", "subw"} -> A(1, j) - A(2, j)
      [] f \in {"mul", "mull"} -> A(1, j) * A(2, j)
      [] f \in {"mul_n", "mull_n"} -> A(1, j) * A(2, 0)
      [] f \in {"mla", "mlal"} -> A(1, j) + A(2, j) * A(3, j)
      [] f = "mlsl" -> A(1, j) - A(2, j) * A(3, j)
      [] f = "mla_n" -> A(1, j) + A(2, j) * A(3, 0)
      [] f = "addl_high" -> A(1, j + n) + A(2, j + n)
      [] f = "addw_high" -> A(1, j) + A(2, j + n)
      [] f = "movl" -> A(1, j)
      [] f = "shll_n" -> A(1, j) * 2^k
      [] f = "paddl" -> A(1, 2*j) + A(1, 2*j + 1)
      [] f = "addhn_high" -> IF j < n \div 2 THEN A(1, j) ELSE (A(2, j - n \div 2) + A(3, j - n \div 2)) \div 2^h
      [] f = "subhn" -> (A(1, j) - A(2, j)) \div 2^h
      [] f = "rsubhn" -> (A(1, j) - A(2, j) + 2^(h - 1)) \div 2^h
      [] f = "movn" -> A(1, j)
      [] f = "shrn_n" -> A(1, j) \div 2^k
      [] f = "rshrn_n" -> (A(1, j) + 2^(k - 1)) \div 2^k
      [] f = "qadd" -> Clamp(rt, A(1, j) + A(2, j))
      [] f = "qsub" -> Clamp(rt, A(1, j) - A(2, j))
      [] f = "qdmull" -> Clamp(rt, 2 * A(1, j) * A(2, j))
      [] f \in {"qmovn", "qmovun"} -> Clamp(rt, A(1, j))
      [] f \in {"qshrn_n", "qshrun_n"} -> Clamp(rt, A(1, j) \div 2^k)
      [] f = "qrshrun_n" -> Clamp(rt, (A(1, j) + 2^(k - 1)) \div 2^k)
      [] f = "hsub" -> (A(1, j) - A(2, j)) \div 2
      [] f = "shr_n" -> A(1, j) \div 2^k
      [] f = "shl_n" -> (UA(1, j) % 2^(bt - k)) * 2^k
      [] f = "sra_n" -> A(1, j) + (A(2, j) \div 2^k)
      [] f = "and" -> LET G(i) == BitAt(UA(1, j), i) * BitAt(UA(2, j), i) IN MapBits(G, bt)
      [] f = "orr" -> LET G(i) == Max2(BitAt(UA(1, j), i), BitAt(UA(2, j), i)) IN MapBits(G, bt)
      [] f = "eor" -> LET G(i) == (BitAt(UA(1, j), i) + BitAt(UA(2, j), i)) % 2 IN MapBits(G, bt)
      [] f = "mvn" -> 2^bt - 1 - UA(1, j)
      [] f = "bsl" -> LET G(i) == IF BitAt(UA(1, j), i) = 1 THEN BitAt(UA(2, j), i) ELSE BitAt(UA(3, j), i) IN MapBits(G, bt)
      [] f = "max" -> Max2(A(1, j), A(2, j))
      [] f = "min" -> Min2(A(1, j), A(2, j))
      [] f = "pmax" -> Max2(AB(2*j), AB(2*j + 1))
      [] f = "pmin" -> Min2(AB(2*j), AB(2*j + 1))
      [] f = "cgt" -> IF A(1, j) > A(2, j) THEN 2^bt - 1 ELSE 0
      [] f = "clt" -> IF A(1, j) < A(2, j) THEN 2^bt - 1 ELSE 0
      [] f = "ext" -> AB(j + k)
      [] f = "zip" -> IF j % 2 = 0 THEN A(1, j \div 2) ELSE A(2, j \div 2)
      [] f = "uzp" -> IF j < m THEN AB(2*j) ELSE AB(2*(j - m) + 1)
      [] f = "trn" -> LET l == (j % m) - ((j % m) % 2) IN A((j % 2) + 1, IF j < m THEN l ELSE l + 1)
      [] f = "combine" -> AB(j)
      [] f = "get_low" -> A(1, j)
      [] f = "get_high" -> A(1, j + n)
      [] f = "dup_n" -> A(1, 0)
      [] f = "getlane" -> A(1, k)
=============================================================================
