----------------------------- MODULE MCMachine -----------------------------
(***************************************************************************)
(* The machine of Neon closed: every interleaving of the calls two threads *)
(* can make with a few registers, arenas and intrinsics of every kind of   *)
(* effect, legal and illegal immediates included.  What the properties     *)
(* promise a user is checked here as invariants and action properties of   *)
(* the specification that the recorded histories are validated against.    *)
(***************************************************************************)
EXTENDS Neon
CONSTANTS Ops,                  \* intrinsics the program calls
          Ks,                   \* immediates it passes
          MaxCalls
VARIABLES n,                    \* calls begun
          was                   \* [Thread -> <<call, arena, regs>> when it began]
allv == <<vars, n, was>>

W8(i) == [j \in 1..8 |-> (i + j * j + j \div 3) % Base]
Arena0 == [j \in 1..10 |-> (j + j \div 4) % Base]
MInit == /\ mem = [th \in Thread |-> Arena0]
         /\ regs = [th \in Thread |-> <<W8(0), W8(1)>>]
         /\ pend = [th \in Thread |-> NoCall]
         /\ out = [th \in Thread |-> Nothing]
         /\ n = 0
         /\ was = [th \in Thread |-> <<>>]
Operands(th, op) == LET d == DataArgs(op)
                        R(i) == {x \in 1..Len(regs[th]) : Image(d[i]) = 8}
                    IN IF Len(d) = 0 THEN {<<>>} ELSE IF Len(d) = 1 THEN {<<regs[th][x]>> : x \in R(1)}
                       ELSE {<<regs[th][x], regs[th][y]>> : x \in R(1), y \in R(2)}
Begin(th) == /\ n < MaxCalls
             /\ \E o \in Ops, k \in Ks \cup {-1}, p \in {0, 1} :
                   /\ (p > 0 <=> UsesMem(Catalog[o])) /\ (HasImm(Catalog[o]) \/ k = 0)
                   /\ \E a \in Operands(th, Catalog[o]) :
                        /\ Invoke(th, Call(o, a, k, p))
                        /\ was' = [was EXCEPT ![th] = <<pend'[th], mem[th], regs[th]>>]
             /\ n' = n + 1
End(th) == /\ pend[th] # NoCall
           /\ \/ Reject(th)
              \/ Return(th, Result(pend[th], mem[th]), MemAfter(pend[th], mem[th]), IF Sig(Catalog[pend[th].o]).res.k = "void" THEN 0 ELSE 1)
           /\ UNCHANGED <<n, was>>
MNext == \E th \in Thread : Begin(th) \/ End(th)
Spec == MInit /\ [][MNext]_allv

Legal(c) == ImmOk(Catalog[c.o], c.k)
(* Every call in progress has exactly one possible outcome. *)
Decided ==
    \A th \in Thread : pend[th] # NoCall =>
        LET c == pend[th] v == Result(c, mem[th]) m == MemAfter(c, mem[th]) IN
        /\ Legal(c) => /\ Allowed(c, mem[th], "ret", v, m)
                       /\ ~Allowed(c, mem[th], "abort", <<>>, mem[th])
                       /\ \A i \in {1, Len(v)} \cap 1..Len(v) : ~Allowed(c, mem[th], "ret", [v EXCEPT ![i] = (@ + 1) % Base], m)
                       /\ \A i \in {1, 9} : ~Allowed(c, mem[th], "ret", v, [m EXCEPT ![i] = (@ + 1) % Base])
        /\ ~Legal(c) => /\ Allowed(c, mem[th], "abort", <<>>, mem[th])
                        /\ \A x \in {W8(0), W8(1)} : ~Allowed(c, mem[th], "ret", x, mem[th])
                        /\ \A i \in {1, 9} : ~Allowed(c, mem[th], "abort", <<>>, [mem[th] EXCEPT ![i] = (@ + 1) % Base])
        /\ \A st \in {"sig11", "hang", "none"} : ~Allowed(c, mem[th], st, W8(0), mem[th])
(* Results are a function of what the call was given, whatever happened in  *)
(* between, and in other threads. *)
Functional == [][\A th \in Thread : (pend[th] # NoCall /\ pend'[th] = NoCall) =>
                    LET w == was[th] IN
                    IF Legal(w[1]) THEN out'[th] = Returned(Result(w[1], w[2])) /\ mem'[th] = MemAfter(w[1], w[2])
                                   ELSE out'[th] = Rejected /\ mem'[th] = w[2] /\ regs'[th] = w[3]]_allv
Isolated == [][\A th \in Thread : (pend[th] = pend'[th] /\ pend'[th] # NoCall) => mem'[th] = mem[th] /\ regs'[th] = regs[th] /\ out'[th] = out[th]]_allv
OneAtATime == [][\E th \in Thread : \A u \in Thread \ {th} : <<mem'[u], regs'[u], pend'[u], out'[u]>> = <<mem[u], regs[u], pend[u], out[u]>>]_allv
(* Only a store changes an arena, and only inside its footprint. *)
Framed == [][\A th \in Thread : mem'[th] # mem[th] =>
                /\ pend[th] # NoCall /\ Legal(pend[th])
                /\ \A i \in 1..Len(mem[th]) : (i <= pend[th].p \/ i > pend[th].p + WriteLen(Catalog[pend[th].o])) => mem'[th][i] = mem[th][i]]_allv
RejectedNothing == [][\A th \in Thread : (pend[th] # NoCall /\ pend'[th] = NoCall /\ ~Legal(pend[th])) =>
                        mem'[th] = mem[th] /\ regs'[th] = regs[th] /\ out'[th] = Rejected]_allv
TypeOk == \A th \in Thread : IsWord(mem[th], 10) /\ \A r \in 1..2 : IsWord(regs[th][r], 8)
=============================================================================
