----------------------------- MODULE NeonTrace -----------------------------
(***************************************************************************)
(* Trace validation: is a history recorded from the library a behaviour of *)
(* Neon?                                                                   *)
(*                                                                         *)
(* The trace (ndjson, one event a line, file named by the environment      *)
(* variable TRACE) drives the machine: event i must be a step of Neon from *)
(* the state reached so far.  An event that is no such step is a           *)
(* divergence: it is printed with what the specification expected, counted,*)
(* and the state is resynchronised from the values the library really      *)
(* produced, so that one run reports every divergence of the trace and the *)
(* rest of the history is still judged.                                    *)
(*                                                                         *)
(* Events (t: thread, default 0):                                          *)
(*   [e |-> "mem", m]                 the program sets its arena           *)
(*   [e |-> "call", o, a, k, p, s, r, w]  a complete call: operands a,     *)
(*        immediate k, pointer offset p, outcome s ("ret", "abort", or a   *)
(*        crash), value r, arena afterwards w; m, if there, is the arena   *)
(*        the program set just before the call                             *)
(*   [e |-> "reg", d, v]              the program sets register d          *)
(*   [e |-> "rcall", o, x, k, p, s, r, w, d]  as call, operands taken from *)
(*        the registers x of the machine, the result going to register d   *)
(*   [e |-> "inv", o, a, k, p] / [e |-> "ret", s, r, w]  the two halves    *)
(*   [e |-> "decl", lang, o, linked, same, args, res]  how the header offers *)
(*        intrinsic o to a client in that language, and whether it links   *)
(*   [e |-> "unit", lang, std, ok]  a translation unit that includes the   *)
(*        header is (ok) accepted by a compiler for that language          *)
(*   [e |-> "end", s]  how the process making the calls ended ("ok", signal) *)
(*   [e |-> "layout", lang, ty, size, lanes, nested, flat, assigned, read] *)
(*        the image of a vector type holding the given lanes, however the  *)
(*        program put them there, and the lanes read back                  *)
(*   [e |-> "accept", o, j, ty]  the types (of those in Offered, by their    *)
(*        C names) a compiler takes for operand j of intrinsic o             *)
(*   [e |-> "convert", ty, to]  the vector types a value of vector type ty is *)
(*        taken for                                                          *)
(* Members a, k, p, m, w may be missing when the intrinsic has no such thing. *)
(***************************************************************************)
EXTENDS Neon, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)

VARIABLES i,                    \* next event
          bad                   \* number of divergences so far
tvars == <<vars, i, bad>>

Has(e, x) == x \in DOMAIN e
Get(e, x, dflt) == IF x \in DOMAIN e THEN e[x] ELSE dflt
Th(e) == Get(e, "t", 0)
NRegs == 24

CallOf(e) == Call(e.o, Get(e, "a", <<>>), Get(e, "k", 0), Get(e, "p", 0))
RCallOf(e) == Call(e.o, [j \in 1..Len(e.x) |-> regs[Th(e)][e.x[j]]], Get(e, "k", 0), Get(e, "p", 0))

TInit == /\ mem  = [th \in Thread |-> <<>>]
         /\ regs = [th \in Thread |-> [r \in 1..NRegs |-> <<>>]]
         /\ pend = [th \in Thread |-> NoCall]
         /\ out  = [th \in Thread |-> Nothing]
         /\ i = 1
         /\ bad = 0

(* The call of event e is a step of the machine.  Malformed calls (wrong    *)
(* operand shapes) would be an error of the harness, not of the library.   *)
Step(th, c, e, d) ==
    LET arena == Get(e, "m", mem[th])
        w  == Get(e, "w", arena)
        r  == Get(e, "r", <<>>)
        op == Catalog[c.o]
    IN  /\ Assert(WellFormed(c, arena), <<"malformed event", i, e>>)
        /\ IF Allowed(c, arena, e.s, r, w)
           THEN bad' = bad
           ELSE /\ PrintT("DIVERGENCE " \o ToString(i) \o " " \o ToJson(
                         [s |-> IF ImmOk(op, c.k) THEN "ret" ELSE "abort",
                          r |-> IF ImmOk(op, c.k) THEN Result(c, arena) ELSE <<>>,
                          w |-> IF ImmOk(op, c.k) THEN MemAfter(c, arena) ELSE arena,
                          c |-> c, m |-> arena]))
                /\ bad' = bad + 1
        /\ mem' = [mem EXCEPT ![th] = w]
        /\ regs' = IF d = 0 \/ e.s # "ret" THEN regs ELSE [regs EXCEPT ![th][d] = r]
        /\ out' = [out EXCEPT ![th] = IF e.s = "ret" THEN Returned(r) ELSE Rejected]

(* Events about the program text rather than a run: no change of state. *)
DeclOk(e) == /\ e.o \in OpNames
             /\ e.linked
             /\ e.same
             /\ e.lang = "cc" => SameSignature(Catalog[e.o], e.args, e.res)
LayoutOk(e) ==
    \E y \in VecTypes :
        /\ CName(y) = e.ty
        /\ e.size = Image(y)
        /\ Len(e.lanes) = Image(y)
        /\ \A x \in {e.nested, e.flat, e.assigned, e.read} : x = e.lanes
Taken(e) == LET f == Sig(Catalog[e.o]).args[e.j] IN {CName(y) : y \in {y \in Offered : Accepts(f, y)}}
ConvertsTo(e) == {CName(y) : y \in {y \in VecTypes : \E x \in VecTypes : CName(x) = e.ty /\ Accepts(x, y)}}
Judge(ok, want) ==
    /\ IF ok THEN bad' = bad
       ELSE PrintT("DIVERGENCE " \o ToString(i) \o " " \o ToJson(want)) /\ bad' = bad + 1
    /\ UNCHANGED vars

TNext ==
    /\ i <= TraceLen
    /\ i' = i + 1
    /\ LET e  == Trace[i]
           th == Th(e)
       IN CASE e.e = "mem"   -> Poke(th, e.m) /\ UNCHANGED bad
            [] e.e = "reg"   -> /\ regs' = [regs EXCEPT ![th][e.d] = e.v]
                                /\ UNCHANGED <<mem, pend, out, bad>>
            [] e.e = "call"  -> Step(th, CallOf(e), e, 0) /\ UNCHANGED pend
            [] e.e = "rcall" -> Step(th, RCallOf(e), e, e.d) /\ UNCHANGED pend
            [] e.e = "inv"   -> Invoke(th, CallOf(e)) /\ UNCHANGED bad
            [] e.e = "decl"  -> Judge(DeclOk(e), IF e.o \in OpNames THEN [args |-> [j \in 1..Len(Sig(Catalog[e.o]).args) |-> CName(Sig(Catalog[e.o]).args[j])],
                                                  res |-> CName(Sig(Catalog[e.o]).res), linked |-> TRUE] ELSE [linked |-> FALSE])
            [] e.e = "unit"  -> Judge(e.ok, [ok |-> TRUE])
            [] e.e = "end"   -> Judge(e.s = "ok", [s |-> "ok"])
            [] e.e = "layout" -> Judge(LayoutOk(e), [image |-> e.lanes])
            [] e.e = "accept" -> Judge({e.ty[x] : x \in DOMAIN e.ty} = Taken(e), [ty |-> SetToSeq(Taken(e))])
            [] e.e = "convert" -> Judge({e.to[x] : x \in DOMAIN e.to} = ConvertsTo(e), [to |-> SetToSeq(ConvertsTo(e))])
            [] e.e = "ret"   -> /\ pend[th] # NoCall
                                /\ Step(th, pend[th], e, 0)
                                /\ pend' = [pend EXCEPT ![th] = NoCall]

TSpec == TInit /\ [][TNext]_tvars

(* Acceptance: every event was consumed (a rejected prefix would stop the   *)
(* run early), and the number of divergences is reported.                  *)
Accepted == /\ Assert(TLCGet("stats").diameter = TraceLen + 1, <<"trace not consumed", TLCGet("stats").diameter, TraceLen>>)
            /\ PrintT(<<"CONSUMED", TraceLen>>)
=============================================================================
