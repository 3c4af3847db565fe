------------------------------ MODULE MCColumns -----------------------------
(* Every sequence of insertions of intervals with ends in 0..Top: all the  *)
(* columns that can arise, printed for replay on the implementation.       *)
EXTENDS Columns, TLC
CONSTANT Top
VARIABLE col
Intervals == {v \in (0..Top) \X (0..Top) : v[1] < v[2]}
Init == col = {}
Next == \E v \in Intervals : col' \in Insert(col, v)
Spec == Init /\ [][Next]_col
AlwaysProper == Proper(col)
\* Nothing of a wall is ever forgotten, and at most the gap to the nearest
\* wall is added.
Complete == \A v \in Intervals : \A c \in Insert(col, v) :
               /\ Points(col) \cup Points({v}) \subseteq Points(c)
               /\ Points(c) # Points(col) \cup Points({v})
                     => Cardinality(col) = 2 /\ Cardinality(c) = 2
Show == PrintT(<<"COL", col>>)
=============================================================================
