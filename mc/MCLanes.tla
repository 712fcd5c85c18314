------------------------------ MODULE MCLanes ------------------------------
(***************************************************************************)
(* For every intrinsic of property Prop, every legal immediate and every   *)
(* pair of lane values (all values of lanes of up to 4 bits, boundary      *)
(* values of 8- and 16-bit ones): the value the specification gives is the *)
(* reference value in every lane.                                          *)
(***************************************************************************)
EXTENDS Ref
CONSTANT Prop
VARIABLES nm, k, ix, iy

HasRef(op) == ~IsF(op.t) /\ op.f \notin {"ld", "ldlane", "lddup", "st", "stlane", "tbl", "qtbl", "reinterpret", "rev16", "rev32", "rev64",
                                          "cvt", "cvtn", "div", "recpe", "recps"}
Names == {x \in OpNames : Catalog[x].p = Prop /\ HasRef(Catalog[x])}

V4 == <<0, 1, 2, 3>>
V16 == [i \in 1..16 |-> i - 1]
V256 == <<0, 1, 2, 3, 15, 16, 17, 63, 64, 85, 127, 128, 129, 170, 192, 240, 254, 255>>
V64K == <<0, 1, 2, 127, 128, 255, 256, 257, 21845, 32640, 32767, 32768, 32769, 43690, 65280, 65534, 65535>>
VS(b) == CASE b = 1 -> V4 [] b = 2 -> V16 [] b = 4 -> V256 [] b = 8 -> V64K
Pick(b, i) == Nat2W(VS(b)[(i % Len(VS(b))) + 1], b)

ArgVec(o, x, y, j) ==                         \* operand j of shape o
    LET b == EB(o.t)
        G(l) == CASE j = 1 -> Pick(b, x + l) [] j = 2 -> Pick(b, y + 3 * l) [] OTHER -> Pick(b, 5 * x + y + 7 * l)
    IN  Cat(Image(o) \div b, G)
Args(op, x, y) == LET d == DataArgs(op) IN [j \in 1..Len(d) |-> ArgVec(d[j], x, y, j)]

NV(op, j) == LET d == DataArgs(op) IN IF j > Len(d) THEN 1 ELSE Len(VS(EB(d[j].t)))
Init == /\ nm \in Names
        /\ k \in ImmLo(Catalog[nm])..ImmHi(Catalog[nm])
        /\ ix \in 0..(NV(Catalog[nm], 1) - 1)
        /\ iy \in 0..(NV(Catalog[nm], 2) - 1)
Next == UNCHANGED <<nm, k, ix, iy>>

Agreement ==
    LET op == Catalog[nm]
        a  == Args(op, ix, iy)
        r  == Value(op, a, k, <<>>)
        rb == EB(Sig(op).res.t)
    IN  /\ IsWord(r, Image(Sig(op).res))
        /\ \A j \in 0..(Len(r) \div rb - 1) : U(Lane(r, rb, j)) = Wrap(RefLane(op, a, k, j), DB * rb)
=============================================================================
