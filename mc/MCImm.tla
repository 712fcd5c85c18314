------------------------------- MODULE MCImm -------------------------------
(* The legal immediates: an independent statement, by lane counts and      *)
(* widths written out, for every intrinsic that takes one.                 *)
EXTENDS Intrinsics, Catalog
VARIABLES nm, k
op == Catalog[nm]
Names == {x \in OpNames : HasImm(Catalog[x])}
Init == nm \in Names /\ k \in (-300..300) \cup {-2147483647, 2147483647, 65536, -65536, 1073741824}
Next == UNCHANGED <<nm, k>>
Width(t) == CASE t \in {"s8", "u8"} -> 8 [] t \in {"s16", "u16"} -> 16 [] t \in {"s32", "u32", "f32"} -> 32 [] OTHER -> 64
Lanes(t, q) == (IF q THEN 128 ELSE 64) \div Width(t)
Legal ==
    CASE op.f \in {"ldlane", "stlane", "getlane", "ext"} -> 0 <= k /\ k < Lanes(op.t, op.q)
      [] op.f \in {"shr_n", "sra_n"} -> 1 <= k /\ k <= Width(op.t)
      [] op.f \in {"shl_n", "shll_n"} -> 0 <= k /\ k < Width(op.t)
      [] op.f \in {"shrn_n", "rshrn_n", "qshrn_n", "qshrun_n", "qrshrun_n"} -> 1 <= k /\ k <= Width(op.t) \div 2
RangeOk == ImmOk(op, k) <=> Legal
NoImmAlwaysOk == \A x \in OpNames \ Names : ImmOk(Catalog[x], k)
=============================================================================
