------------------------------ MODULE MCTable ------------------------------
(* Table lookups: every index value against every table form. *)
EXTENDS Intrinsics, Catalog
VARIABLES nm, ix, pos
Names == {x \in OpNames : Catalog[x].f \in {"tbl", "qtbl"}}
op == Catalog[nm]
Init == nm \in Names /\ ix \in 0..255 /\ pos \in 1..8
Next == UNCHANGED <<nm, ix, pos>>
tab == [i \in 1..Image(DataArgs(op)[1]) |-> 100 + i]
idx == [i \in 1..8 |-> IF i = pos THEN ix ELSE (i * 37) % 256]
r == Value(op, <<tab, idx>>, 0, <<>>)
Indexed ==
    /\ Len(r) = 8
    /\ \A i \in 1..8 : r[i] = IF idx[i] >= Len(tab) THEN 0 ELSE 101 + idx[i]
=============================================================================
