------------------------------ MODULE MCMove -------------------------------
(***************************************************************************)
(* Laws of the moving intrinsics (memory, lanes, permutations, lookups,    *)
(* reinterpretation).  They are data independent: with all digits distinct *)
(* one state per intrinsic, immediate (and pointer) decides the placement  *)
(* for every operand.                                                      *)
(***************************************************************************)
EXTENDS Neon
CONSTANT Prop
VARIABLES nm, k, p

DistinctDigits(len, from) == [i \in 1..len |-> from + i]
Moves == {"ld", "ldlane", "lddup", "st", "stlane", "getlane", "ext", "rev16", "rev32", "rev64", "trn", "zip", "uzp", "combine",
          "get_low", "get_high", "dup_n", "reinterpret"}
Names == {x \in OpNames : Catalog[x].p = Prop /\ Catalog[x].f \in Moves}
ArenaLen(op) == (IF ReadLen(op) > WriteLen(op) THEN ReadLen(op) ELSE WriteLen(op)) + 12

MInit == /\ nm \in Names
         /\ k \in ImmLo(Catalog[nm])..ImmHi(Catalog[nm])
         /\ p \in (IF UsesMem(Catalog[nm]) THEN IF ReadLen(Catalog[nm]) + WriteLen(Catalog[nm]) > 16 THEN {5} ELSE {0, 5, 12} ELSE {0})
         /\ mem = [th \in Thread |-> <<>>] /\ regs = <<>> /\ pend = [th \in Thread |-> NoCall] /\ out = <<>>
MNext == UNCHANGED <<vars, nm, k, p>>

op == Catalog[nm]
b == EB(op.t)
args == LET d == DataArgs(op) IN [j \in 1..Len(d) |-> DistinctDigits(Image(d[j]), 64 * (j - 1))]
arena == DistinctDigits(ArenaLen(op), 128)
call == Call(nm, args, k, p)
res == Result(call, arena)
after == MemAfter(call, arena)
At(s, i) == Lane(s, b, i)                                  \* lane i
MemEl(i) == SubSeq(arena, p + b * i + 1, p + b * i + b)    \* element i at the pointer
AfterEl(i) == SubSeq(after, p + b * i + 1, p + b * i + b)
nl == NL(op.t, op.q)
f == op.f

(* C01, C02: element n*i+j <-> lane i of vector j, both ways, and back. *)
LoadStore ==
    /\ f = "ld" => \A v \in 0..(op.n - 1), i \in 0..(nl - 1) : At(res, v * nl + i) = MemEl(op.n * i + v)
    /\ f = "st" => \A v \in 0..(op.n - 1), i \in 0..(nl - 1) : AfterEl(op.n * i + v) = At(args[1], v * nl + i)
    /\ f = "st" => Value([op EXCEPT !.f = "ld"], <<>>, 0, SubSeq(after, p + 1, p + WriteLen(op))) = args[1]
    /\ f = "ld" => Stored([op EXCEPT !.f = "st"], <<res>>, 0) = SubSeq(arena, p + 1, p + ReadLen(op))
(* C03: only the addressed lane. *)
LaneAccess ==
    /\ f = "ldlane" => \A v \in 0..(op.n - 1), i \in 0..(nl - 1) :
            At(res, v * nl + i) = IF i = k THEN MemEl(v) ELSE At(args[1], v * nl + i)
    /\ f = "stlane" => \A v \in 0..(op.n - 1) : AfterEl(v) = At(args[1], v * nl + k)
    /\ f = "lddup" => \A i \in 0..(nl - 1) : At(res, i) = MemEl(0)
    /\ f = "getlane" => res = At(args[1], k)
(* C20: nothing but the footprint is written or read. *)
Frame ==
    /\ Len(after) = Len(arena)
    /\ \A i \in 1..Len(arena) : (i <= p \/ i > p + WriteLen(op)) => after[i] = arena[i]
    /\ \A i \in 1..Len(arena) : (i > p /\ i <= p + WriteLen(op)) => after[i] # arena[i]
    /\ Result(call, [i \in 1..Len(arena) |-> IF i <= p \/ i > p + ReadLen(op) THEN 255 ELSE arena[i]]) = res
    /\ \A i \in 1..Len(arena) : (i > p /\ i <= p + ReadLen(op)) => Result(call, [arena EXCEPT ![i] = 255]) # res
(* C11: places, and nothing lost. *)
Digits(s) == {s[i] : i \in 1..Len(s)}
Unop(x) == Value(op, <<x>>, k, <<>>)
Alt(g, x, y) == Value([op EXCEPT !.f = g], <<x, y>>, 0, <<>>)
Permutation ==
    /\ f \in {"rev16", "rev32", "rev64"} => /\ Unop(res) = args[1] /\ Digits(res) = Digits(args[1]) /\ res # args[1]
                                            /\ LET c == (CASE f = "rev16" -> 2 [] f = "rev32" -> 4 [] f = "rev64" -> 8)
                                               IN \A i \in 0..(nl - 1) : \E j \in 0..(nl - 1) :
                                                    At(res, i) = At(args[1], j) /\ (i * b) \div c = (j * b) \div c
                                                    /\ ((i * b) % c) + ((j * b) % c) = c - b
    /\ f \in {"trn", "zip", "uzp"} => Digits(res) = Digits(args[1]) \cup Digits(args[2])
    /\ f = "trn" => Alt("trn", LowHalf(res), HighHalf(res)) = args[1] \o args[2]
    /\ f = "zip" => Alt("uzp", LowHalf(res), HighHalf(res)) = args[1] \o args[2]
    /\ f = "uzp" => Alt("zip", LowHalf(res), HighHalf(res)) = args[1] \o args[2]
    /\ f = "combine" => LowHalf(res) = args[1] /\ HighHalf(res) = args[2]
    /\ f \in {"get_low", "get_high"} => LET g == [op EXCEPT !.f = "get_low"] h == [op EXCEPT !.f = "get_high"]
                                        IN Value(g, args, 0, <<>>) \o Value(h, args, 0, <<>>) = args[1]
    /\ f = "ext" => \A i \in 0..(nl - 1) : At(res, i) = IF i + k < nl THEN At(args[1], i + k) ELSE At(args[2], i + k - nl)
    /\ f = "dup_n" => \A i \in 0..(nl - 1) : At(res, i) = args[1]
(* C13 *)
Reinterpretation == f = "reinterpret" => res = args[1] /\ \A i \in 0..(nl - 1) : At(res, i) = SubSeq(args[1], b * i + 1, b * i + b)
=============================================================================
