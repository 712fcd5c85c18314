------------------------------ MODULE NeonSim ------------------------------
(***************************************************************************)
(* Behaviours of Neon as programs: TLC -simulate walks the machine at      *)
(* random and prints every action it takes, so that the walk can be        *)
(* replayed on the library and the recording validated by NeonTrace.       *)
(*                                                                         *)
(* The program keeps NRegs registers of fixed sizes (RegSize) and one      *)
(* arena; operands are registers, results go back to registers, so that    *)
(* what one call computes is what later calls are given.                   *)
(***************************************************************************)
EXTENDS Neon, TLCExt

VARIABLES step
svars == <<vars, step>>

RegSize == <<8, 8, 8, 8, 8, 8, 16, 16, 16, 16, 16, 16, 24, 32, 32, 32, 48, 48, 64, 64, 1, 2, 4, 24>>
NRegs == Len(RegSize)
ArenaSize == 96
th == CHOOSE t \in Thread : TRUE
RegsOf(n) == {r \in 1..NRegs : RegSize[r] = n}

Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte == [d \in 0..255 |-> Hex[(d \div 16) + 1] \o Hex[(d % 16) + 1]]
RECURSIVE HexR(_, _)
HexR(w, i) == IF i > Len(w) THEN "" ELSE HexByte[w[i]] \o HexR(w, i + 1)
HexOf(w) == IF w = <<>> THEN "-" ELSE HexR(w, 1)
RECURSIVE Names(_, _)
Names(x, i) == IF i > Len(x) THEN "" ELSE " " \o ToString(x[i]) \o Names(x, i + 1)

(* Lanes at which operations change their behaviour, and random ones. *)
LanePick(b) ==
    LET r == RandomElement(1..11) IN
    CASE r = 1 -> Zero(b)
      [] r = 2 -> Rep(255, b)
      [] r = 3 -> Trunc(MaxOf(b, TRUE, b), b)
      [] r = 4 -> Trunc(MinOf(b, TRUE, b), b)
      [] r = 5 -> Nat2W(1, b)
      [] r = 6 -> [i \in 1..b |-> IF i = b THEN RandomElement({63, 64, 127, 128, 191, 192, 255}) ELSE RandomElement({0, 128, 255})]
      [] r = 7 -> Pow2(RandomElement(0..(8 * b - 1)), b)
      [] r = 8 -> Inv(Pow2(RandomElement(0..(8 * b - 1)), b))
      [] OTHER -> [i \in 1..b |-> RandomElement(0..255)]
RECURSIVE Fill(_, _)
Fill(n, b) == IF n <= 0 THEN <<>> ELSE LanePick(b) \o Fill(n - b, b)
LaneSizes(n) == {b \in {1, 2, 4, 8} : (n % b) = 0}

SInit == /\ mem = [t \in Thread |-> <<>>]
         /\ regs = [t \in Thread |-> [r \in 1..NRegs |-> <<>>]]
         /\ pend = [t \in Thread |-> NoCall]
         /\ out = [t \in Thread |-> Nothing]
         /\ step = 0

Fresh(r) == \E w \in {Fill(RegSize[r], RandomElement(LaneSizes(RegSize[r])))} :
    /\ regs' = [regs EXCEPT ![th][r] = w]
    /\ PrintT("PROG reg " \o ToString(r) \o " " \o HexOf(w))
    /\ UNCHANGED <<mem, pend, out>>
FreshArena == \E w \in {Fill(ArenaSize, RandomElement({1, 2, 4, 8}))} :
    /\ Poke(th, w)
    /\ PrintT("PROG mem " \o HexOf(w))

(* Immediates: mostly legal; the illegal ones just outside and far away. *)
Bad == {-1, -2, 16, 17, 33, 64, 65, 255, 256, -2147483647, 2147483647, 65536}
Imms(op) == IF ~HasImm(op) THEN {0}
            ELSE IF RandomElement(1..5) > 1 THEN {RandomElement(ImmLo(op)..ImmHi(op))}
            ELSE {RandomElement({ImmLo(op) - 1, ImmHi(op) + 1} \cup Bad)}
Footprint(op) == IF ReadLen(op) > WriteLen(op) THEN ReadLen(op) ELSE WriteLen(op)

RECURSIVE Pick(_, _)
Pick(d, i) == IF i > Len(d) THEN <<>> ELSE <<RandomElement(RegsOf(Image(d[i])))>> \o Pick(d, i + 1)

Do(o, x, k, p, d) ==
    LET op == Catalog[o]
        c == TLCEval(Call(o, [j \in 1..Len(x) |-> regs[th][x[j]]], k, p))
        ok == ImmOk(op, k)
        v == TLCEval(IF ok THEN Result(c, mem[th]) ELSE <<>>)
        m == TLCEval(IF ok THEN MemAfter(c, mem[th]) ELSE mem[th])
    IN  /\ PrintT("PROG rcall " \o o \o " " \o ToString(k) \o " " \o ToString(p) \o " " \o ToString(d) \o Names(x, 1))
        /\ Complete(th, c, IF ok THEN "ret" ELSE "abort", v, m, d)

ResultSize(op) == Image(Sig(op).res)
Walk == \E o \in {RandomElement(OpNames)} :
          LET op == Catalog[o] IN
          \E x \in {Pick(DataArgs(op), 1)}, k \in Imms(op),
             p \in {IF UsesMem(op) THEN EB(op.t) * RandomElement(0..((ArenaSize - Footprint(op)) \div EB(op.t))) ELSE 0},
             d \in {IF ResultSize(op) = 0 THEN 0 ELSE RandomElement(RegsOf(ResultSize(op)))} :
                Do(o, x, k, p, d)

SNext == /\ step' = step + 1
         /\ IF step < NRegs THEN Fresh(step + 1)
            ELSE IF step = NRegs THEN FreshArena
            ELSE \E kind \in {RandomElement(1..14)} :
                    CASE kind \in 1..3 -> \E r \in {RandomElement(1..NRegs)} : Fresh(r)
                      [] kind = 4 -> FreshArena
                      [] OTHER -> Walk
=============================================================================
