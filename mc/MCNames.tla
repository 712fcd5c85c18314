------------------------------- MODULE MCNames -----------------------------
(* The catalogue says what ACLE says: every name is the one that ACLE's     *)
(* naming scheme derives from the meaning recorded for it, no two intrinsics*)
(* mean the same, every operand has a type a program can name, and every    *)
(* property's share of the catalogue is not empty.                          *)
EXTENDS Intrinsics, Catalog
VARIABLE nm
Init == nm \in OpNames
Next == UNCHANGED nm
op == Catalog[nm]
Q == IF op.q THEN "q" ELSE ""
Num(n) == ToString(n)
Plain == {"add", "sub", "mul", "div", "mla", "addl", "subl", "mull", "addw", "subw", "mlal", "mlsl", "movl", "paddl", "subhn", "rsubhn",
          "movn", "qadd", "qsub", "qdmull", "qmovn", "qmovun", "hsub", "and", "orr", "eor", "mvn", "bsl", "max", "min", "pmax", "pmin",
          "cgt", "clt", "ext", "rev16", "rev32", "rev64", "trn", "zip", "uzp", "recpe", "recps", "combine"}
ByScalarOrImm(f) == CASE f = "mul_n" -> "mul" [] f = "mla_n" -> "mla" [] f = "mull_n" -> "mull" [] f = "dup_n" -> "dup" [] f = "shr_n" -> "shr"
                      [] f = "shl_n" -> "shl" [] f = "sra_n" -> "sra" [] f = "shll_n" -> "shll" [] f = "shrn_n" -> "shrn" [] f = "rshrn_n" -> "rshrn"
                      [] f = "qshrn_n" -> "qshrn" [] f = "qshrun_n" -> "qshrun" [] f = "qrshrun_n" -> "qrshrun" [] OTHER -> ""
Published ==
    CASE op.f \in Plain -> "v" \o op.f \o Q \o "_" \o op.t
      [] ByScalarOrImm(op.f) # "" -> "v" \o ByScalarOrImm(op.f) \o Q \o "_n_" \o op.t
      [] op.f \in {"addl_high", "addw_high", "addhn_high", "get_high", "get_low"} -> "v" \o op.f \o "_" \o op.t
      [] op.f \in {"ld", "st"} -> "v" \o op.f \o Num(op.n) \o Q \o "_" \o op.t
      [] op.f = "ldlane" -> "vld" \o Num(op.n) \o Q \o "_lane_" \o op.t
      [] op.f = "stlane" -> "vst" \o Num(op.n) \o Q \o "_lane_" \o op.t
      [] op.f = "lddup" -> "vld1" \o Q \o "_dup_" \o op.t
      [] op.f = "getlane" -> "vget" \o Q \o "_lane_" \o op.t
      [] op.f \in {"tbl", "qtbl"} -> "v" \o op.f \o Num(op.n) \o Q \o "_" \o op.t
      [] op.f \in {"cvt", "cvtn", "reinterpret"} -> "v" \o op.f \o Q \o "_" \o op.t \o "_" \o op.u
(* vmov_n is ACLE's second name for vdup_n. *)
Alias == IF op.f = "dup_n" THEN "vmov" \o Q \o "_n_" \o op.t ELSE Published
NameOk == nm \in {Published, Alias}
Meaning(o) == <<o.f, o.t, o.q, o.n, o.u>>
MeaningUnique == \A x \in OpNames : x # nm => Meaning(Catalog[x]) # Meaning(op) \/ {x, nm} = {Published, Alias}
Nameable(o) == o.k = "vec" => \E y \in VecTypes : CName(y) = CName(o)
TypesOk == /\ \A j \in 1..Len(Sig(op).args) : Nameable(Sig(op).args[j]) /\ Sig(op).args[j].k \notin {"void"}
           /\ Nameable(Sig(op).res)
           /\ SameSignature(op, [j \in 1..Len(Sig(op).args) |-> CName(Sig(op).args[j])], CName(Sig(op).res))
           /\ HasImm(op) <=> \E j \in 1..Len(Sig(op).args) : Sig(op).args[j].k = "imm"
           /\ UsesMem(op) <=> \E j \in 1..Len(Sig(op).args) : Sig(op).args[j].k \in {"ptr", "cptr"}
(* A signature with any operand or the result changed is told apart. *)
Wrong(c) == IF c = "int8x8_t" THEN "uint8x8_t" ELSE "int8x8_t"
TypesTold == LET A == [j \in 1..Len(Sig(op).args) |-> CName(Sig(op).args[j])] r == CName(Sig(op).res)
             IN /\ \A j \in 1..Len(A) : ~SameSignature(op, [A EXCEPT ![j] = Wrong(A[j])], r)
                /\ ~SameSignature(op, A, Wrong(r))
                /\ ~SameSignature(op, Append(A, "int"), r)
                /\ \A y, z \in {y \in VecTypes : y.t \in {op.t, op.u}} : CName(y) = CName(z) => y = z
(* Compile-time checking is possible: a strict operand takes one vector     *)
(* type, or pointers to one element type, never both, always the type it is *)
(* declared with; the names offered are distinct; a store takes no address  *)
(* of constant elements.                                                    *)
TakenBy(f) == {y \in Offered : Accepts(f, y)}
Checked ==
    /\ Cardinality({CName(y) : y \in Offered}) = Cardinality(Offered)
    /\ \A j \in 1..Len(Sig(op).args) : LET f == Sig(op).args[j] IN Strict(f) =>
          /\ CName(f) \in {CName(y) : y \in TakenBy(f)}
          /\ Cardinality(TakenBy(f)) = IF f.k = "cptr" THEN 2 ELSE 1
          /\ (f.k = "ptr" \/ op.f \in {"st", "stlane"}) => \A y \in TakenBy(f) : y.k # "cptr"
    /\ op.f \in {"st", "stlane"} => Sig(op).args[1].k = "ptr"
=============================================================================
