------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words as little-endian sequences of digits in base 2^DB.        *)
(*                                                                         *)
(* TLC integers are 32 bits wide, the lanes of the machine up to 64 and    *)
(* exact products up to 128, so every quantity of the specification is a   *)
(* digit sequence of explicit width.  With DB = 8 a digit is a byte and a  *)
(* word is exactly the memory image of a lane; the exhaustive checks use   *)
(* DB = 2, where an "8-bit" lane has 2 bits, so that whole operand spaces  *)
(* are enumerated and compared with the integers of TLA+ (MCWords).        *)
(*                                                                         *)
(* A word is read as a natural number (U) or in two's complement (S); the  *)
(* operators below never lose information except where they say so (Trunc, *)
(* Shl), so "exact result" in the other modules means exact.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise

CONSTANT DB                     \* bits per digit

Base == 2^DB
Half == 2^(DB-1)
Digit == 0..(Base-1)

IsWord(x, n) == Len(x) = n /\ \A i \in 1..n : x[i] \in Digit

Rep(d, n) == TLCEval([i \in 1..n |-> d])
Zero(n) == Rep(0, n)

Neg(x) == x[Len(x)] >= Half                         \* sign of the S reading
Trunc(x, n) == SubSeq(x, 1, n)                      \* modulo Base^n
Ext(x, sgn, n) ==                                   \* same value, n >= Len(x) digits
    IF Len(x) >= n THEN Trunc(x, n)
    ELSE x \o Rep(IF sgn /\ Neg(x) THEN Base-1 ELSE 0, n - Len(x))

(* One's complement and addition with carry in, modulo Base^Len(x). *)
Inv(x) == TLCEval([i \in 1..Len(x) |-> Base - 1 - x[i]])

RECURSIVE AddC(_, _, _, _, _)
AddC(x, y, i, c, acc) ==
    IF i > Len(x) THEN acc
    ELSE LET s == x[i] + y[i] + c
         IN  AddC(x, y, i + 1, s \div Base, Append(acc, s % Base))

Add(x, y) == AddC(x, y, 1, 0, <<>>)
Sub(x, y) == AddC(x, Inv(y), 1, 1, <<>>)
Minus(x)  == AddC(Inv(x), Zero(Len(x)), 1, 1, <<>>)

(* A small natural number as a word of n digits. *)
RECURSIVE NatR(_, _, _)
NatR(k, n, acc) == IF n = 0 THEN acc ELSE NatR(k \div Base, n - 1, Append(acc, k % Base))
Nat2W(k, n) == NatR(k, n, <<>>)

(* Product modulo Base^n of two words of n digits. *)
RECURSIVE ColSum(_, _, _, _, _)
ColSum(x, y, k, i, s) ==        \* sum of x[i]*y[k+1-i]
    IF i > k THEN s ELSE ColSum(x, y, k, i + 1, IF x[i] = 0 THEN s ELSE s + x[i] * y[k + 1 - i])
RECURSIVE MulR(_, _, _, _, _, _)
MulR(x, y, k, n, c, acc) ==
    IF k > n THEN acc
    ELSE LET s == ColSum(x, y, k, 1, c)
         IN  MulR(x, y, k + 1, n, s \div Base, Append(acc, s % Base))
Mul(x, y) == MulR(x, y, 1, Len(x), 0, <<>>)

(* Shifts by k bits.  Shr keeps the value floor(x / 2^k) of the U or S      *)
(* reading for any k; Shl drops the bits shifted out.                      *)
Shr(x, k, sgn) ==
    LET n == Len(x)
        q == k \div DB
        r == k % DB
        fill == IF sgn /\ Neg(x) THEN Base - 1 ELSE 0
        D(i) == IF i <= n THEN x[i] ELSE fill
    IN  TLCEval([i \in 1..n |-> (D(i+q) \div 2^r) + ((D(i+q+1) * 2^(DB-r)) % Base)])
Shl(x, k) ==
    LET n == Len(x)
        q == k \div DB
        r == k % DB
        D(i) == IF i >= 1 THEN x[i] ELSE 0
    IN  TLCEval([i \in 1..n |-> ((D(i-q) * 2^r) % Base) + (D(i-q-1) \div 2^(DB-r))])

(* 2^k as a word of n digits (0 when it does not fit). *)
Pow2(k, n) == TLCEval([i \in 1..n |-> IF (i-1) = k \div DB THEN 2^(k % DB) ELSE 0])

(* Order.  Lexicographic from the most significant digit. *)
RECURSIVE LtR(_, _, _)
LtR(x, y, i) == IF i = 0 THEN FALSE
                ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LtR(x, y, i - 1)
LtU(x, y) == LtR(x, y, Len(x))
LtS(x, y) == IF Neg(x) # Neg(y) THEN Neg(x) ELSE LtU(x, y)
Lt(x, y, sgn) == IF sgn THEN LtS(x, y) ELSE LtU(x, y)
IsZero(x) == \A i \in 1..Len(x) : x[i] = 0

(* Bounds of a lane of n digits as words of w > n digits (S reading). *)
MaxOf(n, sgn, w) == TLCEval([i \in 1..w |-> IF i < n THEN Base - 1
                                     ELSE IF i = n THEN IF sgn THEN Half - 1 ELSE Base - 1
                                     ELSE 0])
MinOf(n, sgn, w) == IF ~sgn THEN Zero(w)
                    ELSE TLCEval([i \in 1..w |-> IF i < n THEN 0
                                          ELSE IF i = n THEN Half ELSE Base - 1])

(* Nearest value representable in n digits of the exact S value x. *)
Sat(x, n, sgn) ==
    LET w == Len(x)
    IN  IF LtS(x, MinOf(n, sgn, w)) THEN Trunc(MinOf(n, sgn, w), n)
        ELSE IF LtS(MaxOf(n, sgn, w), x) THEN Trunc(MaxOf(n, sgn, w), n)
        ELSE Trunc(x, n)

(* Bitwise operations. *)
WAnd(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] & y[i]])
WOr(x, y)  == TLCEval([i \in 1..Len(x) |-> x[i] | y[i]])
WXor(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] ^^ y[i]])

(* Number of significant bits of the U reading; bit k (0 = least). *)
RECURSIVE BitLenD(_)
BitLenD(d) == IF d = 0 THEN 0 ELSE 1 + BitLenD(d \div 2)
RECURSIVE BitLenR(_, _)
BitLenR(x, i) == IF i = 0 THEN 0
                 ELSE IF x[i] = 0 THEN BitLenR(x, i - 1)
                 ELSE (i - 1) * DB + BitLenD(x[i])
BitLen(x) == BitLenR(x, Len(x))
Bit(x, k) == IF k < 0 \/ k \div DB >= Len(x) THEN 0
             ELSE (x[k \div DB + 1] \div 2^(k % DB)) % 2
(* Some bit below position k is set. *)
AnyBelow(x, k) ==
    LET q == k \div DB
    IN  \/ \E i \in 1..(IF q < Len(x) THEN q ELSE Len(x)) : x[i] # 0
        \/ q < Len(x) /\ k > 0 /\ (x[q + 1] % 2^(k % DB)) # 0
=============================================================================
