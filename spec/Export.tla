------------------------------- MODULE Export ------------------------------
(* Writes the catalogue with shapes, signatures, immediate ranges and      *)
(* footprints as JSON, from which the harness is generated.                *)
EXTENDS Intrinsics, Catalog, Json, IOUtils
VARIABLE done
Arg(o) == [k |-> o.k, c |-> CName(o), n |-> Image(o), t |-> o.t]
Entry(nm) == LET op == Catalog[nm]
                 sg == Sig(op)
             IN [name |-> nm, f |-> op.f, t |-> op.t, q |-> op.q, n |-> op.n, u |-> op.u, p |-> op.p,
                 args |-> [j \in 1..Len(sg.args) |-> Arg(sg.args[j])], res |-> Arg(sg.res),
                 imm |-> HasImm(op), lo |-> ImmLo(op), hi |-> ImmHi(op),
                 rd |-> ReadLen(op), wr |-> WriteLen(op), mem |-> UsesMem(op),
                 eb |-> EB(op.t), fa |-> FloatArith(op)]
Init == done = FALSE
Next == /\ ~done
        /\ ndJsonSerialize(IOEnv.OUT \o ".types", SetToSeq({Arg(y) @@ [q |-> y.q, v |-> y.n] : y \in VecTypes}))
        /\ done' = ndJsonSerialize(IOEnv.OUT, SetToSeq({Entry(nm) : nm \in OpNames}))
=============================================================================
