----------------------------- MODULE Intrinsics ----------------------------
(***************************************************************************)
(* Architectural meaning of the NEON intrinsics, one operator family per   *)
(* clause.                                                                 *)
(*                                                                         *)
(* An intrinsic is a record                                                *)
(*     [f |-> family, t |-> element type, q |-> 128-bit form?,             *)
(*      n |-> number of vectors (structured memory accesses), u |-> type]  *)
(* (Catalog.tla maps every published name to its record).  A 64-bit vector *)
(* is a word of 8 digits, a 128-bit vector one of 16, a group of vectors   *)
(* their concatenation; lane i of an element type of b digits is digits    *)
(* b*i+1 .. b*i+b.  With DB = 8 these are the memory images, byte for byte.*)
(*                                                                         *)
(*   Sig(op)            operand and result types                           *)
(*   ImmOk(op, k)       the legal immediates                               *)
(*   ReadLen, WriteLen  the memory footprint, in digits from the pointer   *)
(*   Value(op, a, k, m) the result, given operands a, immediate k and the  *)
(*                      digits m read from memory                          *)
(*   Stored(op, a, k)   the digits written to memory                       *)
(*   Agrees(op, x, y)   y is an acceptable rendering of the result x       *)
(***************************************************************************)
EXTENDS Floats, FiniteSets, SequencesExt

(*------------------------------- element types ---------------------------*)
EB(t) == CASE t \in {"s8", "u8"} -> 1
           [] t \in {"s16", "u16"} -> 2
           [] t \in {"s32", "u32", "f32"} -> 4
           [] t \in {"s64", "u64", "f64"} -> 8
Bits(t)  == DB * EB(t)
Sgn(t)   == t \in {"s8", "s16", "s32", "s64"}
IsF(t)   == t \in {"f32", "f64"}
VB(q)    == IF q THEN 16 ELSE 8
NL(t, q) == VB(q) \div EB(t)
Wide(t) == CASE t = "s8" -> "s16" [] t = "s16" -> "s32" [] t = "s32" -> "s64"
             [] t = "u8" -> "u16" [] t = "u16" -> "u32" [] t = "u32" -> "u64"
Narrow(t) == CASE t = "s16" -> "s8" [] t = "s32" -> "s16" [] t = "s64" -> "s32"
               [] t = "u16" -> "u8" [] t = "u32" -> "u16" [] t = "u64" -> "u32"
Unsigned(t) == CASE t = "s8" -> "u8" [] t = "s16" -> "u16"
                 [] t = "s32" -> "u32" [] t = "s64" -> "u64" [] OTHER -> t

(*------------------------------- lanes ------------------------------------*)
Lane(x, b, i) == SubSeq(x, b * i + 1, b * i + b)            \* i = 0 .. n-1
Cat(n, F(_)) == FlattenSeq(TLCEval([i \in 1..n |-> F(i - 1)]))
Map1(x, b, F(_)) == LET G(i) == F(Lane(x, b, i)) IN Cat(Len(x) \div b, G)
Map2(x, y, b, F(_, _)) ==
    LET G(i) == F(Lane(x, b, i), Lane(y, b, i)) IN Cat(Len(x) \div b, G)
(* Place lane P(i) of x at lane i, n lanes in all. *)
Permute(x, b, n, P(_)) == LET G(i) == Lane(x, b, P(i)) IN Cat(n, G)
LowHalf(x)  == SubSeq(x, 1, Len(x) \div 2)
HighHalf(x) == SubSeq(x, Len(x) \div 2 + 1, Len(x))
Ones(b) == Rep(Base - 1, b)

(*------------------------------- lane operations --------------------------*)
LAdd(t, x, y) == IF IsF(t) THEN FAdd(x, y) ELSE Add(x, y)
LSub(t, x, y) == IF IsF(t) THEN FSub(x, y) ELSE Sub(x, y)
LMul(t, x, y) == IF IsF(t) THEN FMul(x, y) ELSE Mul(x, y)
LLt(t, x, y)  == IF IsF(t) THEN FLt(x, y) ELSE Lt(x, y, Sgn(t))
LMax(t, x, y) == IF IsF(t) THEN FMax(x, y) ELSE IF Lt(x, y, Sgn(t)) THEN y ELSE x
LMin(t, x, y) == IF IsF(t) THEN FMin(x, y) ELSE IF Lt(x, y, Sgn(t)) THEN x ELSE y
(* Exact results in one more digit, in the S reading. *)
X1(t, x) == Ext(x, Sgn(t), Len(x) + 1)
ExactSum(t, x, y)  == Add(X1(t, x), X1(t, y))
ExactDiff(t, x, y) == Sub(X1(t, x), X1(t, y))
W2(t, x) == Ext(x, Sgn(t), 2 * Len(x))                      \* widened lane
ExactProd(t, x, y) == Mul(W2(t, x), W2(t, y))
(* x shifted right by k, exact (one more digit), half a unit added first when rnd *)
ExactShr(t, x, k, rnd) ==
    LET v == X1(t, x)
    IN  Shr(IF rnd /\ k > 0 THEN Add(v, Pow2(k - 1, Len(v))) ELSE v, k, TRUE)

(*------------------------------- results ----------------------------------*)
(* Position of lane i in a reversal within containers of g digits. *)
RevPos(i, b, g) == LET c == g \div b IN (i \div c) * c + (c - 1 - (i % c))

ZipLanes(x, y, b) ==
    LET G(i) == Lane(IF i % 2 = 0 THEN x ELSE y, b, i \div 2) IN Cat(2 * (Len(x) \div b), G)
Transpose(x, y, b) ==
    LET n == Len(x) \div b
        G(j) == LET i == j % n IN
                IF j < n THEN IF i % 2 = 0 THEN Lane(x, b, i) ELSE Lane(y, b, i - 1)
                         ELSE IF i % 2 = 0 THEN Lane(x, b, i + 1) ELSE Lane(y, b, i)
    IN  Cat(2 * n, G)
Deinterleave(x, b, n) ==                     \* lane j of group member v is element n*j+v
    LET c == (Len(x) \div b) \div n
        P(i) == n * (i % c) + (i \div c)
    IN  Permute(x, b, n * c, P)
InterleaveN(x, b, n) ==
    LET c == (Len(x) \div b) \div n
        P(i) == c * (i % n) + (i \div n)
    IN  Permute(x, b, n * c, P)
(* The group x of n vectors of c lanes with lane k of member v replaced by  *)
(* element v of m. *)
ReplaceLane(x, m, b, n, k) ==
    LET c == (Len(x) \div b) \div n
        G(i) == IF i % c = k THEN Lane(m, b, i \div c) ELSE Lane(x, b, i)
    IN  Cat(n * c, G)
SelectLane(x, b, n, k) ==
    LET c == (Len(x) \div b) \div n
        G(v) == Lane(x, b, c * v + k)
    IN  Cat(n, G)
Lookup(tab, idx) ==
    LET G(i) == IF idx[i + 1] < Len(tab) THEN <<tab[idx[i + 1] + 1]>> ELSE <<0>>
    IN  Cat(Len(idx), G)
Select(m, x, y) == WOr(WAnd(m, x), WAnd(Inv(m), y))
Pairwise(x, y, b, F(_, _)) ==
    LET xy == x \o y
        G(i) == F(Lane(xy, b, 2 * i), Lane(xy, b, 2 * i + 1))
    IN  Cat(Len(x) \div b, G)

Value(op, a, k, m) ==
    LET f == op.f
        t == op.t
        b == EB(op.t)
    IN
    \* ---- memory and lanes
    CASE f = "ld"     -> Deinterleave(m, b, op.n)
      [] f = "ldlane" -> ReplaceLane(a[1], m, b, op.n, k)
      [] f = "lddup"  -> LET G(i) == m IN Cat(NL(t, op.q), G)
      [] f = "getlane" -> Lane(a[1], b, k)
      [] f \in {"st", "stlane"} -> <<>>
    \* ---- same width
      [] f = "add" -> LET F(x, y) == LAdd(t, x, y) IN Map2(a[1], a[2], b, F)
      [] f = "sub" -> LET F(x, y) == LSub(t, x, y) IN Map2(a[1], a[2], b, F)
      [] f = "mul" -> LET F(x, y) == LMul(t, x, y) IN Map2(a[1], a[2], b, F)
      [] f = "div" -> LET F(x, y) == FDiv(x, y) IN Map2(a[1], a[2], b, F)
      [] f = "mul_n" -> LET F(x) == LMul(t, x, a[2]) IN Map1(a[1], b, F)
      [] f = "mla" -> LET G(i) == LAdd(t, Lane(a[1], b, i), LMul(t, Lane(a[2], b, i), Lane(a[3], b, i)))
                      IN  Cat(NL(t, op.q), G)
      [] f = "mla_n" -> LET G(i) == LAdd(t, Lane(a[1], b, i), LMul(t, Lane(a[2], b, i), a[3]))
                        IN  Cat(NL(t, op.q), G)
    \* ---- widening: t is the narrow type
      [] f = "addl" -> LET F(x, y) == Add(W2(t, x), W2(t, y)) IN Map2(a[1], a[2], b, F)
      [] f = "subl" -> LET F(x, y) == Sub(W2(t, x), W2(t, y)) IN Map2(a[1], a[2], b, F)
      [] f = "mull" -> LET F(x, y) == ExactProd(t, x, y) IN Map2(a[1], a[2], b, F)
      [] f = "mull_n" -> LET F(x) == ExactProd(t, x, a[2]) IN Map1(a[1], b, F)
      [] f = "addl_high" -> LET F(x, y) == Add(W2(t, x), W2(t, y))
                            IN  Map2(HighHalf(a[1]), HighHalf(a[2]), b, F)
      [] f = "addw" -> LET G(i) == Add(Lane(a[1], 2*b, i), W2(t, Lane(a[2], b, i))) IN Cat(8 \div b, G)
      [] f = "subw" -> LET G(i) == Sub(Lane(a[1], 2*b, i), W2(t, Lane(a[2], b, i))) IN Cat(8 \div b, G)
      [] f = "addw_high" -> LET G(i) == Add(Lane(a[1], 2*b, i), W2(t, Lane(HighHalf(a[2]), b, i)))
                            IN  Cat(8 \div b, G)
      [] f = "mlal" -> LET G(i) == Add(Lane(a[1], 2*b, i), ExactProd(t, Lane(a[2], b, i), Lane(a[3], b, i)))
                       IN  Cat(8 \div b, G)
      [] f = "mlsl" -> LET G(i) == Sub(Lane(a[1], 2*b, i), ExactProd(t, Lane(a[2], b, i), Lane(a[3], b, i)))
                       IN  Cat(8 \div b, G)
      [] f = "movl" -> LET F(x) == W2(t, x) IN Map1(a[1], b, F)
      [] f = "shll_n" -> LET F(x) == Shl(W2(t, x), k) IN Map1(a[1], b, F)
      [] f = "paddl" -> LET G(i) == Add(W2(t, Lane(a[1], b, 2*i)), W2(t, Lane(a[1], b, 2*i + 1)))
                        IN  Cat(NL(t, op.q) \div 2, G)
    \* ---- narrowing: t is the wide type
      [] f = "addhn_high" -> LET F(x, y) == HighHalf(Add(x, y)) IN a[1] \o Map2(a[2], a[3], b, F)
      [] f = "subhn" -> LET F(x, y) == HighHalf(Sub(x, y)) IN Map2(a[1], a[2], b, F)
      [] f = "rsubhn" -> LET F(x, y) == HighHalf(Add(Sub(x, y), Pow2(Bits(t) \div 2 - 1, b)))
                         IN  Map2(a[1], a[2], b, F)
      [] f = "movn" -> LET F(x) == LowHalf(x) IN Map1(a[1], b, F)
      [] f = "shrn_n" -> LET F(x) == Trunc(ExactShr(t, x, k, FALSE), b \div 2) IN Map1(a[1], b, F)
      [] f = "rshrn_n" -> LET F(x) == Trunc(ExactShr(t, x, k, TRUE), b \div 2) IN Map1(a[1], b, F)
    \* ---- saturating
      [] f = "qadd" -> LET F(x, y) == Sat(ExactSum(t, x, y), b, Sgn(t)) IN Map2(a[1], a[2], b, F)
      [] f = "qsub" -> LET F(x, y) == Sat(ExactDiff(t, x, y), b, Sgn(t)) IN Map2(a[1], a[2], b, F)
      [] f = "qdmull" -> LET F(x, y) == Sat(Shl(X1(Wide(t), ExactProd(t, x, y)), 1), 2*b, TRUE)
                         IN  Map2(a[1], a[2], b, F)
      [] f = "qmovn"  -> LET F(x) == Sat(X1(t, x), b \div 2, Sgn(t)) IN Map1(a[1], b, F)
      [] f = "qmovun" -> LET F(x) == Sat(X1(t, x), b \div 2, FALSE) IN Map1(a[1], b, F)
      [] f = "qshrn_n" -> LET F(x) == Sat(ExactShr(t, x, k, FALSE), b \div 2, Sgn(t)) IN Map1(a[1], b, F)
      [] f = "qshrun_n" -> LET F(x) == Sat(ExactShr(t, x, k, FALSE), b \div 2, FALSE) IN Map1(a[1], b, F)
      [] f = "qrshrun_n" -> LET F(x) == Sat(ExactShr(t, x, k, TRUE), b \div 2, FALSE) IN Map1(a[1], b, F)
    \* ---- halving and shifts
      [] f = "hsub" -> LET F(x, y) == Trunc(Shr(ExactDiff(t, x, y), 1, TRUE), b) IN Map2(a[1], a[2], b, F)
      [] f = "shr_n" -> LET F(x) == Shr(x, k, Sgn(t)) IN Map1(a[1], b, F)
      [] f = "shl_n" -> LET F(x) == Shl(x, k) IN Map1(a[1], b, F)
      [] f = "sra_n" -> LET F(x, y) == Add(x, Shr(y, k, Sgn(t))) IN Map2(a[1], a[2], b, F)
    \* ---- bitwise
      [] f = "and" -> WAnd(a[1], a[2])
      [] f = "orr" -> WOr(a[1], a[2])
      [] f = "eor" -> WXor(a[1], a[2])
      [] f = "mvn" -> Inv(a[1])
      [] f = "bsl" -> Select(a[1], a[2], a[3])
    \* ---- order
      [] f = "max" -> LET F(x, y) == LMax(t, x, y) IN Map2(a[1], a[2], b, F)
      [] f = "min" -> LET F(x, y) == LMin(t, x, y) IN Map2(a[1], a[2], b, F)
      [] f = "pmax" -> LET F(x, y) == LMax(t, x, y) IN Pairwise(a[1], a[2], b, F)
      [] f = "pmin" -> LET F(x, y) == LMin(t, x, y) IN Pairwise(a[1], a[2], b, F)
      [] f = "cgt" -> LET F(x, y) == IF LLt(t, y, x) THEN Ones(b) ELSE Zero(b) IN Map2(a[1], a[2], b, F)
      [] f = "clt" -> LET F(x, y) == IF LLt(t, x, y) THEN Ones(b) ELSE Zero(b) IN Map2(a[1], a[2], b, F)
    \* ---- permutations
      [] f = "ext" -> SubSeq(a[1] \o a[2], b * k + 1, b * k + Len(a[1]))
      [] f = "rev16" -> LET P(i) == RevPos(i, b, 2) IN Permute(a[1], b, NL(t, op.q), P)
      [] f = "rev32" -> LET P(i) == RevPos(i, b, 4) IN Permute(a[1], b, NL(t, op.q), P)
      [] f = "rev64" -> LET P(i) == RevPos(i, b, 8) IN Permute(a[1], b, NL(t, op.q), P)
      [] f = "trn" -> Transpose(a[1], a[2], b)
      [] f = "zip" -> ZipLanes(a[1], a[2], b)
      [] f = "uzp" -> Deinterleave(a[1] \o a[2], b, 2)
      [] f = "combine" -> a[1] \o a[2]
      [] f = "get_low"  -> LowHalf(a[1])
      [] f = "get_high" -> HighHalf(a[1])
      [] f = "dup_n" -> LET G(i) == a[1] IN Cat(NL(t, op.q), G)
      [] f \in {"tbl", "qtbl"} -> Lookup(a[1], a[2])
      [] f = "reinterpret" -> a[1]
    \* ---- conversions and estimates
      [] f = "cvt" -> IF IsF(t) THEN LET F(x) == FromInt(Fmt(b), x, Sgn(op.u)) IN Map1(a[1], b, F)
                      ELSE LET F(x) == ToInt(x, b, Sgn(t), FALSE) IN Map1(a[1], b, F)
      [] f = "cvtn" -> LET F(x) == ToInt(x, b, Sgn(t), TRUE) IN Map1(a[1], b, F)
      [] f = "recpe" -> LET F(x) == FRecpe(x) IN Map1(a[1], b, F)
      [] f = "recps" -> LET F(x, y) == FRecps(x, y) IN Map2(a[1], a[2], b, F)

Stored(op, a, k) ==
    CASE op.f = "st"     -> InterleaveN(a[1], EB(op.t), op.n)
      [] op.f = "stlane" -> SelectLane(a[1], EB(op.t), op.n, k)
      [] OTHER -> <<>>

(*------------------------------- footprint --------------------------------*)
ReadLen(op) == CASE op.f = "ld" -> op.n * VB(op.q)
                 [] op.f = "ldlane" -> op.n * EB(op.t)
                 [] op.f = "lddup" -> EB(op.t)
                 [] OTHER -> 0
WriteLen(op) == CASE op.f = "st" -> op.n * VB(op.q)
                  [] op.f = "stlane" -> op.n * EB(op.t)
                  [] OTHER -> 0
UsesMem(op) == op.f \in {"ld", "ldlane", "lddup", "st", "stlane"}

(*------------------------------- immediates -------------------------------*)
HasImm(op) == op.f \in {"ldlane", "stlane", "getlane", "ext", "shr_n", "sra_n", "shl_n", "shll_n",
                        "shrn_n", "rshrn_n", "qshrn_n", "qshrun_n", "qrshrun_n"}
ImmLo(op) == IF op.f \in {"shr_n", "sra_n", "shrn_n", "rshrn_n", "qshrn_n", "qshrun_n", "qrshrun_n"}
             THEN 1 ELSE 0
ImmHi(op) == CASE op.f \in {"ldlane", "stlane", "getlane", "ext"} -> NL(op.t, op.q) - 1
               [] op.f \in {"shr_n", "sra_n"} -> Bits(op.t)
               [] op.f \in {"shl_n", "shll_n"} -> Bits(op.t) - 1
               [] op.f \in {"shrn_n", "rshrn_n", "qshrn_n", "qshrun_n", "qrshrun_n"} -> Bits(op.t) \div 2
               [] OTHER -> 0
ImmOk(op, k) == HasImm(op) => k \in ImmLo(op)..ImmHi(op)

(*------------------------------- signatures -------------------------------*)
(* Operand kinds: V(t,q,n) a group of n vectors, S(t) a scalar, P(t) a      *)
(* pointer to const, M(t) a pointer, I an immediate int, N nothing.        *)
V(t, q, n) == [k |-> "vec", t |-> t, q |-> q, n |-> n]
S(t) == [k |-> "scalar", t |-> t, q |-> FALSE, n |-> 1]
P(t) == [k |-> "cptr", t |-> t, q |-> FALSE, n |-> 1]
M(t) == [k |-> "ptr", t |-> t, q |-> FALSE, n |-> 1]
I == [k |-> "imm", t |-> "s32", q |-> FALSE, n |-> 1]
N == [k |-> "void", t |-> "s32", q |-> FALSE, n |-> 1]

Sig(op) ==
    LET f == op.f
        t == op.t
        q == op.q
        v == V(t, q, 1)
        g == V(t, q, op.n)
        G(args, res) == [args |-> args, res |-> res]
    IN
    CASE f = "ld" -> G(<<P(t)>>, g)
      [] f = "ldlane" -> G(<<P(t), g, I>>, g)
      [] f = "lddup" -> G(<<P(t)>>, v)
      [] f = "st" -> G(<<M(t), g>>, N)
      [] f = "stlane" -> G(<<M(t), g, I>>, N)
      [] f = "getlane" -> G(<<v, I>>, S(t))
      [] f \in {"add", "sub", "mul", "div", "qadd", "qsub", "hsub", "and", "orr", "eor", "max", "min",
                "pmax", "pmin", "recps"} -> G(<<v, v>>, v)
      [] f = "mul_n" -> G(<<v, S(t)>>, v)
      [] f = "mla" -> G(<<v, v, v>>, v)
      [] f = "mla_n" -> G(<<v, v, S(t)>>, v)
      [] f \in {"addl", "subl", "mull", "qdmull"} -> G(<<V(t, FALSE, 1), V(t, FALSE, 1)>>, V(Wide(t), TRUE, 1))
      [] f = "mull_n" -> G(<<V(t, FALSE, 1), S(t)>>, V(Wide(t), TRUE, 1))
      [] f = "addl_high" -> G(<<V(t, TRUE, 1), V(t, TRUE, 1)>>, V(Wide(t), TRUE, 1))
      [] f \in {"addw", "subw"} -> G(<<V(Wide(t), TRUE, 1), V(t, FALSE, 1)>>, V(Wide(t), TRUE, 1))
      [] f = "addw_high" -> G(<<V(Wide(t), TRUE, 1), V(t, TRUE, 1)>>, V(Wide(t), TRUE, 1))
      [] f \in {"mlal", "mlsl"} -> G(<<V(Wide(t), TRUE, 1), V(t, FALSE, 1), V(t, FALSE, 1)>>, V(Wide(t), TRUE, 1))
      [] f = "movl" -> G(<<V(t, FALSE, 1)>>, V(Wide(t), TRUE, 1))
      [] f = "shll_n" -> G(<<V(t, FALSE, 1), I>>, V(Wide(t), TRUE, 1))
      [] f = "paddl" -> G(<<v>>, V(Wide(t), q, 1))
      [] f = "addhn_high" -> G(<<V(Narrow(t), FALSE, 1), V(t, TRUE, 1), V(t, TRUE, 1)>>, V(Narrow(t), TRUE, 1))
      [] f \in {"subhn", "rsubhn"} -> G(<<V(t, TRUE, 1), V(t, TRUE, 1)>>, V(Narrow(t), FALSE, 1))
      [] f \in {"movn", "qmovn"} -> G(<<V(t, TRUE, 1)>>, V(Narrow(t), FALSE, 1))
      [] f = "qmovun" -> G(<<V(t, TRUE, 1)>>, V(Unsigned(Narrow(t)), FALSE, 1))
      [] f \in {"shrn_n", "rshrn_n", "qshrn_n"} -> G(<<V(t, TRUE, 1), I>>, V(Narrow(t), FALSE, 1))
      [] f \in {"qshrun_n", "qrshrun_n"} -> G(<<V(t, TRUE, 1), I>>, V(Unsigned(Narrow(t)), FALSE, 1))
      [] f \in {"shr_n", "shl_n"} -> G(<<v, I>>, v)
      [] f = "sra_n" -> G(<<v, v, I>>, v)
      [] f \in {"mvn", "rev16", "rev32", "rev64", "recpe"} -> G(<<v>>, v)
      [] f = "bsl" -> G(<<V(IF t = "f32" THEN "u32" ELSE IF t = "f64" THEN "u64" ELSE Unsigned(t), q, 1), v, v>>, v)
      [] f \in {"cgt", "clt"} -> G(<<v, v>>, V(IF t = "f32" THEN "u32" ELSE IF t = "f64" THEN "u64" ELSE Unsigned(t), q, 1))
      [] f = "ext" -> G(<<v, v, I>>, v)
      [] f \in {"trn", "zip", "uzp"} -> G(<<v, v>>, V(t, q, 2))
      [] f = "combine" -> G(<<V(t, FALSE, 1), V(t, FALSE, 1)>>, V(t, TRUE, 1))
      [] f \in {"get_low", "get_high"} -> G(<<V(t, TRUE, 1)>>, V(t, FALSE, 1))
      [] f = "dup_n" -> G(<<S(t)>>, v)
      [] f = "tbl" -> G(<<V(t, FALSE, op.n), V("u8", FALSE, 1)>>, V(t, FALSE, 1))
      [] f = "qtbl" -> G(<<V(t, TRUE, op.n), V("u8", FALSE, 1)>>, V(t, FALSE, 1))
      [] f \in {"reinterpret", "cvt", "cvtn"} -> G(<<V(op.u, q, 1)>>, v)

(* The C type of an operand. *)
CElem(t) == CASE t = "s8" -> "int8" [] t = "s16" -> "int16" [] t = "s32" -> "int32" [] t = "s64" -> "int64"
              [] t = "u8" -> "uint8" [] t = "u16" -> "uint16" [] t = "u32" -> "uint32" [] t = "u64" -> "uint64"
              [] t = "f32" -> "float32" [] t = "f64" -> "float64"
CName(o) == CASE o.k = "void" -> "void"
              [] o.k = "imm" -> "int"
              [] o.k = "scalar" -> CElem(o.t) \o "_t"
              [] o.k = "cptr" -> CElem(o.t) \o "_t const*"
              [] o.k = "ptr" -> CElem(o.t) \o "_t*"
              [] o.k = "vec" -> CElem(o.t) \o "x" \o ToString(NL(o.t, o.q)) \o
                                (IF o.n = 1 THEN "" ELSE "x" \o ToString(o.n)) \o "_t"
(* Size in digits of the image of an operand (of a pointer: 0). *)
Image(o) == CASE o.k = "vec" -> o.n * VB(o.q) [] o.k = "scalar" -> EB(o.t) [] OTHER -> 0

(* The vector types a program can name. *)
ElemTypes == {"s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "f32", "f64"}
VecTypes == {V(t, q, n) : t \in ElemTypes, q \in BOOLEAN, n \in 1..4}

(* What a C++ compiler may take for an operand of a declared type: a vector *)
(* operand only its own type, an address only a pointer to its own element  *)
(* type, to writable elements if the intrinsic stores through it.           *)
Pointers == {[k |-> kk, t |-> t, q |-> FALSE, n |-> 1] : kk \in {"cptr", "ptr"}, t \in ElemTypes}
Offered == VecTypes \cup Pointers
Strict(formal) == formal.k \in {"vec", "cptr", "ptr"}
Accepts(formal, actual) ==
    CASE formal.k = "vec"  -> actual.k = "vec" /\ CName(actual) = CName(formal)
      [] formal.k = "cptr" -> actual.k \in {"cptr", "ptr"} /\ actual.t = formal.t
      [] formal.k = "ptr"  -> actual.k = "ptr" /\ actual.t = formal.t

(* int and int32_t are one C type. *)
Canon(c) == IF c = "int" THEN "int32_t" ELSE c

(* A declaration as a C++ client sees it has the published types. *)
SameSignature(op, args, res) ==
    LET sg == Sig(op)
    IN  /\ Len(args) = Len(sg.args)
        /\ \A j \in 1..Len(args) : Canon(args[j]) = Canon(CName(sg.args[j]))
        /\ Canon(res) = Canon(CName(sg.res))

(* Operands without pointer and immediate, in order: the sequence a above. *)
DataArgs(op) == LET D(o) == o.k \in {"vec", "scalar"} IN SelectSeq(Sig(op).args, D)

(*------------------------------- agreement --------------------------------*)
(* Floating-point arithmetic may return any NaN where the result is a NaN; *)
(* everything else, data movement of NaNs included, is exact.              *)
FloatArith(op) == IsF(op.t) /\ op.f \in {"add", "sub", "mul", "div", "mul_n", "mla", "mla_n", "max", "min",
                                          "pmax", "pmin", "recpe", "recps"}
Agrees(op, x, y) ==
    \/ x = y
    \/ /\ FloatArith(op)
       /\ Len(x) = Len(y)
       /\ LET b == EB(op.t) IN
          \A i \in 0..(Len(x) \div b - 1) :
              \/ Lane(x, b, i) = Lane(y, b, i)
              \/ IsNaN(Lane(x, b, i)) /\ IsNaN(Lane(y, b, i))
=============================================================================
