--------------------------- MODULE MCInterleave ----------------------------
(***************************************************************************)
(* How a call is carried out, lane by lane, with other threads (or signal  *)
(* handlers) running between any two lanes, against Neon, where its result *)
(* is a function of the operands.  With the working vector local to the    *)
(* call every behaviour is one of Neon's; with a working vector shared     *)
(* between calls, or working state that survives a rejected call, some are *)
(* not: these are the designs that the recorded schedules and histories of *)
(* C19 are there to exclude.                                               *)
(***************************************************************************)
EXTENDS Neon
CONSTANTS Scratch               \* "local", "static" or "sticky"
VARIABLES pc, scr, sticky
allv == <<vars, pc, scr, sticky>>
Op == "vext_u8"
A(th) == <<[j \in 1..8 |-> (th + j) % Base], [j \in 1..8 |-> (2 * th + j \div 2) % Base]>>
Shared == 0
Slot(th) == IF Scratch = "static" THEN Shared ELSE th
Init == /\ mem = [th \in Thread |-> <<>>] /\ regs = [th \in Thread |-> <<Zero(8)>>]
        /\ pend = [th \in Thread |-> NoCall] /\ out = [th \in Thread |-> Nothing]
        /\ pc = [th \in Thread |-> 0] /\ scr = [s \in Thread \cup {Shared} |-> Zero(8)] /\ sticky = 0
Begin(th) == /\ \E k \in {1, 8} : Invoke(th, Call(Op, A(th), k, 0))
             /\ pc' = [pc EXCEPT ![th] = 0]
             /\ UNCHANGED <<scr, sticky>>
(* lane pc of the result *)
LaneStep(th) ==
    /\ pend[th] # NoCall /\ ImmOk(Catalog[Op], pend[th].k) /\ pc[th] < 8
    /\ LET i == pc[th] + pend[th].k + (IF Scratch = "sticky" THEN sticky ELSE 0)
           v == IF i < 8 THEN pend[th].a[1][i + 1] ELSE pend[th].a[2][((i - 8) % 8) + 1]
       IN scr' = [scr EXCEPT ![Slot(th)][pc[th] + 1] = v]
    /\ pc' = [pc EXCEPT ![th] = @ + 1]
    /\ UNCHANGED <<vars, sticky>>
Finish(th) ==
    /\ pend[th] # NoCall /\ pc[th] = 8
    /\ out' = [out EXCEPT ![th] = Returned(scr[Slot(th)])]
    /\ pend' = [pend EXCEPT ![th] = NoCall]
    /\ pc' = [pc EXCEPT ![th] = 0]
    /\ UNCHANGED <<mem, regs, scr, sticky>>
Refuse(th) ==
    /\ pend[th] # NoCall /\ ~ImmOk(Catalog[Op], pend[th].k)
    /\ Reject(th)
    /\ sticky' = 1
    /\ UNCHANGED <<pc, scr>>
Next == \E th \in Thread : Begin(th) \/ LaneStep(th) \/ Finish(th) \/ Refuse(th)
Spec == Init /\ [][Next]_allv
NeonStep == \E th \in Thread :
                \/ pend'[th] # NoCall /\ Invoke(th, pend'[th])
                \/ out'[th].st = "ret" /\ Return(th, out'[th].v, mem'[th], 0)
                \/ Reject(th)
Refines == [][NeonStep]_vars
=============================================================================
