-------------------------------- MODULE Neon -------------------------------
(***************************************************************************)
(* The machine the library simulates: threads that call intrinsics.        *)
(*                                                                         *)
(* Each thread (a thread of the process, or a signal handler interrupting  *)
(* one: anything with its own flow of control) has its own memory arena    *)
(* and vector registers.  A call has two steps.  Invoke fixes the operands;*)
(* between Invoke and Return any other thread may take any steps; Return   *)
(* delivers a value that must be the architectural function of the         *)
(* operands fixed at Invoke and of the arena, and changes exactly the      *)
(* digits of the arena the intrinsic stores.  A call with an illegal       *)
(* immediate can only be rejected: no value, no memory change.             *)
(*                                                                         *)
(* The state is everything a program can observe, so what the properties   *)
(* quantify over ("every history", "every schedule") are the behaviours of *)
(* this module, and a behaviour of the library that is not one of them     *)
(* violates a property.                                                    *)
(***************************************************************************)
EXTENDS Intrinsics, Catalog

CONSTANT Thread                 \* flows of control

VARIABLES mem,                  \* [Thread -> Seq(Digit)]   arenas
          regs,                 \* [Thread -> Seq(Seq(Digit))]  registers (register groups)
          pend,                 \* [Thread -> NoCall or the call in progress]
          out                   \* [Thread -> outcome of the last call]
vars == <<mem, regs, pend, out>>

NoCall == [o |-> "none", a |-> <<>>, k |-> 0, p |-> 0]
Call(o, a, k, p) == [o |-> o, a |-> a, k |-> k, p |-> p]
Returned(v) == [st |-> "ret", v |-> v]
Rejected == [st |-> "abort", v |-> <<>>]
Nothing == [st |-> "none", v |-> <<>>]

(* c is a call a correct program may make: operands of the right shape, and *)
(* the memory footprint inside the arena (pointer p is an offset, 0 based). *)
WellFormed(c, arena) ==
    LET op == Catalog[c.o]
        d  == DataArgs(op)
    IN  /\ Len(c.a) = Len(d)
        /\ \A i \in 1..Len(d) : IsWord(c.a[i], Image(d[i]))
        /\ UsesMem(op) => /\ c.p >= 0
                          /\ c.p + ReadLen(op) <= Len(arena)
                          /\ c.p + WriteLen(op) <= Len(arena)

Result(c, arena) ==
    LET op == Catalog[c.o]
    IN  Value(op, c.a, c.k, SubSeq(arena, c.p + 1, c.p + ReadLen(op)))
Overwrite(arena, p, w) ==
    IF w = <<>> THEN arena
    ELSE SubSeq(arena, 1, p) \o w \o SubSeq(arena, p + Len(w) + 1, Len(arena))
MemAfter(c, arena) == Overwrite(arena, c.p, Stored(Catalog[c.o], c.a, c.k))

(* The outcome (st, v) and arena m are allowed for call c made with arena. *)
Allowed(c, arena, st, v, m) ==
    LET op == Catalog[c.o]
    IN  IF ImmOk(op, c.k)
        THEN st = "ret" /\ Agrees(op, Result(c, arena), v) /\ m = MemAfter(c, arena)
        ELSE st = "abort" /\ m = arena

(*------------------------------- actions ----------------------------------*)
(* The program writes its own arena. *)
Poke(th, w) ==
    /\ pend[th] = NoCall
    /\ mem' = [mem EXCEPT ![th] = w]
    /\ UNCHANGED <<regs, pend, out>>

Invoke(th, c) ==
    /\ pend[th] = NoCall
    /\ WellFormed(c, mem[th])
    /\ pend' = [pend EXCEPT ![th] = c]
    /\ UNCHANGED <<mem, regs, out>>

(* d = 0: the program drops the result; d > 0: it goes to register d. *)
Return(th, v, m, d) ==
    /\ pend[th] # NoCall
    /\ Allowed(pend[th], mem[th], "ret", v, m)
    /\ mem' = [mem EXCEPT ![th] = m]
    /\ regs' = IF d = 0 THEN regs ELSE [regs EXCEPT ![th][d] = v]
    /\ out' = [out EXCEPT ![th] = Returned(v)]
    /\ pend' = [pend EXCEPT ![th] = NoCall]

Reject(th) ==
    /\ pend[th] # NoCall
    /\ Allowed(pend[th], mem[th], "abort", <<>>, mem[th])
    /\ out' = [out EXCEPT ![th] = Rejected]
    /\ pend' = [pend EXCEPT ![th] = NoCall]
    /\ UNCHANGED <<mem, regs>>

(* Invoke and Return (or Reject) with nothing in between. *)
Complete(th, c, st, v, m, d) ==
    /\ pend[th] = NoCall
    /\ WellFormed(c, mem[th])
    /\ Allowed(c, mem[th], st, v, m)
    /\ mem' = [mem EXCEPT ![th] = m]
    /\ regs' = IF d = 0 \/ st # "ret" THEN regs ELSE [regs EXCEPT ![th][d] = v]
    /\ out' = [out EXCEPT ![th] = IF st = "ret" THEN Returned(v) ELSE Rejected]
    /\ UNCHANGED pend
=============================================================================
