------------------------------- MODULE Monitor ------------------------------
(***************************************************************************)
(* What the built-in checkers have to accept.  Heights are integers in     *)
(* tenths of a cell here, because the checkers also see states that are    *)
(* not on the cell lattice.  A state is given by lists: ground [x, y, h]   *)
(* over a background, walls and slabs [x, y, slot, lo, hi], parcels        *)
(* [x, y, slot, h].  An interval [0, 0] means that nothing is there.       *)
(***************************************************************************)
EXTENDS SoilCore, SequencesExt

Tenths == 10
Cells(v) == (v + 5) \div Tenths           \* nearest whole number of cells

Void == <<0, 0>>
Put(f, e) == [f EXCEPT ![<<e[1], e[2]>>][e[3]] = <<e[4], e[5]>>]
Layers(X, Y, list) ==
    FoldLeft(Put, TLCEval([c \in Grid(X, Y) |-> <<Void, Void>>]), list)
GroundMap(X, Y, L) ==
    FoldLeft(LAMBDA f, e : [f EXCEPT ![<<e[1], e[2]>>] = e[3]],
             TLCEval([c \in Grid(X, Y) |-> L.bg]), L.t)
There(iv) == iv # Void
Meets(a, b) == a[1] <= b[2] /\ b[1] <= a[2]      \* touching counts
Enters(a, b) == a[1] < b[2] /\ b[1] < a[2]       \* a common interior

\* The volume check.
Accounted(w, s, r) ==
    LET part == FoldLeft(LAMBDA f, e : [f EXCEPT ![<<e[1], e[2]>>][e[3]] = @ + e[4]],
                         TLCEval([c \in DOMAIN s |-> <<0, 0>>]), r)
    IN \A c \in DOMAIN s : \A k \in 1..2 : part[c][k] = s[c][k][2] - s[c][k][1]
TotalCells(t, s) ==
    Total(DOMAIN t, LAMBDA c : Cells(t[c]))
    + Total(DOMAIN s, LAMBDA c : Cells(s[c][1][2] - s[c][1][1])
                                 + Cells(s[c][2][2] - s[c][2][1]))
VolumeGood(t, w, s, r, n) == Accounted(w, s, r) /\ TotalCells(t, s) = n

\* The consistency check, over the columns of the tool region.
ColumnGood(t, w, s, c) ==
    /\ \A k \in 1..2 : There(w[c][k]) =>
          /\ t[c] <= w[c][k][1]
          /\ w[c][k][1] < w[c][k][2]
    /\ (There(w[c][1]) /\ There(w[c][2])) => ~Meets(w[c][1], w[c][2])
    /\ \A k \in 1..2 : There(s[c][k]) =>
          /\ s[c][k][1] <= s[c][k][2]
          /\ There(w[c][k]) /\ s[c][k][1] = w[c][k][2]
          /\ There(w[c][Other(k)]) => ~Enters(s[c][k], w[c][Other(k)])
SoilGood(t, w, s, a) ==
    \A c \in DOMAIN t :
        (c[1] >= a[1] /\ c[1] < a[2] /\ c[2] >= a[3] /\ c[2] < a[4])
            => ColumnGood(t, w, s, c)
=============================================================================
