------------------------------ MODULE SoilCore ------------------------------
(***************************************************************************)
(* State of the soil/tool world, shared by every other module.             *)
(*                                                                         *)
(* The world is a rectangular grid of soil columns.  Every height is an    *)
(* integer multiple of the cell height.  A column holds                    *)
(*   t    the height of the ground,                                        *)
(*   w    at most two tool walls, intervals <<lo, hi>> in two slots,       *)
(*   s    at most one slab of soil resting on each wall, same slots,       *)
(* and the ledger r is a bag of parcels <<x, y, slot, h>>: the soil carried*)
(* by the tool, parcel by parcel.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

None == <<>>                       \* an empty slot
Has(iv) == iv # None
Lo(iv) == iv[1]
Hi(iv) == iv[2]
Inf == 1000000

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
\* TLC's \div rounds toward minus infinity (floor division)
Half(a) == a \div 2

Dir4 == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
Dir8 == Dir4 \cup {<<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>}
Add(c, d) == <<c[1] + d[1], c[2] + d[2]>>
Step2(c, d, n) == <<c[1] + n * d[1], c[2] + n * d[2]>>
Other(k) == 3 - k

Grid(X, Y) == (0..(X - 1)) \X (0..(Y - 1))

----------------------------------------------------------------------------
(* Bags (multisets) as functions from element to positive multiplicity.    *)
EmptyB == <<>>
InB(b, e) == e \in DOMAIN b
AddB(b, e) == IF e \in DOMAIN b THEN [b EXCEPT ![e] = @ + 1]
              ELSE (e :> 1) @@ b
DelB(b, e) == IF b[e] > 1 THEN [b EXCEPT ![e] = @ - 1]
              ELSE TLCEval([x \in DOMAIN b \ {e} |-> b[x]])
Total(S, f(_)) == MapThenSumSet(f, S)

----------------------------------------------------------------------------
(* Columns.                                                                *)
Walls(w, c) == {k \in 1..2 : Has(w[c][k])}
\* The wall that is the lower one of a column with two walls.
LowerWall(w, c) == IF Lo(w[c][1]) < Lo(w[c][2]) THEN 1 ELSE 2
\* The lowest bottom of the walls of a column.
Bottom(w, c) == IF Walls(w, c) = {1, 2} THEN Min2(Lo(w[c][1]), Lo(w[c][2]))
                ELSE IF Walls(w, c) = {1} THEN Lo(w[c][1])
                ELSE IF Walls(w, c) = {2} THEN Lo(w[c][2])
                ELSE Inf
\* Top of what lies on wall k: its slab, or the bare wall.
TopOn(w, s, c, k) == IF Has(s[c][k]) THEN Hi(s[c][k]) ELSE Hi(w[c][k])
SlabH(s, c, k) == IF Has(s[c][k]) THEN Hi(s[c][k]) - Lo(s[c][k]) ELSE 0
\* Put a thickness a of soil on wall k of c.
Deposit(w, s, c, k, a) ==
    [s EXCEPT ![c][k] = IF Has(@) THEN <<Lo(@), Hi(@) + a>>
                        ELSE <<Hi(w[c][k]), Hi(w[c][k]) + a>>]
\* Take a thickness a of soil from the top of the slab k of c.
Withdraw(s, c, k, a) ==
    [s EXCEPT ![c][k] = IF Hi(@) - a = Lo(@) THEN None ELSE <<Lo(@), Hi(@) - a>>]

----------------------------------------------------------------------------
(* Quantities and well-formedness.                                         *)
GroundMass(t) == Total(DOMAIN t, LAMBDA c : t[c])
SlabMass(s) == Total(DOMAIN s, LAMBDA c : SlabH(s, c, 1) + SlabH(s, c, 2))
Mass(t, s) == GroundMass(t) + SlabMass(s)

\* The ledger accounts exactly for the slabs.
LedgerAt(r, c, k) ==
    Total({e \in DOMAIN r : e[1] = c[1] /\ e[2] = c[2] /\ e[3] = k},
           LAMBDA e : r[e] * e[4])
LedgerCells(r) == {<< <<e[1], e[2]>>, e[3] >> : e \in DOMAIN r}
LedgerOK(s, r) ==
    /\ \A c \in DOMAIN s : \A k \in 1..2 :
          Has(s[c][k]) => LedgerAt(r, c, k) = SlabH(s, c, k)
    /\ \A ck \in LedgerCells(r) :
          /\ ck[1] \in DOMAIN s /\ ck[2] \in 1..2
          /\ Has(s[ck[1]][ck[2]])
    /\ \A e \in DOMAIN r : e[4] >= 1

\* Walls are proper and separated intervals.
WallsOK(w) ==
    \A c \in DOMAIN w :
        /\ \A k \in 1..2 : Has(w[c][k]) => Lo(w[c][k]) < Hi(w[c][k])
        /\ Walls(w, c) = {1, 2} =>
              LET b == LowerWall(w, c)
              IN Hi(w[c][b]) < Lo(w[c][Other(b)])
\* A slab rests on its own wall and has a positive thickness ...
SlabsRest(w, s) ==
    \A c \in DOMAIN s : \A k \in 1..2 :
        Has(s[c][k]) => /\ Has(w[c][k])
                        /\ Lo(s[c][k]) = Hi(w[c][k])
                        /\ Hi(s[c][k]) > Lo(s[c][k])
\* ... and does not enter the wall above it.
SlabsClear(w, s) ==
    \A c \in DOMAIN s :
        Walls(w, c) = {1, 2} =>
            LET b == LowerWall(w, c)
            IN Has(s[c][b]) => Hi(s[c][b]) <= Lo(w[c][Other(b)])
\* The ground does not enter a wall.
GroundClear(t, w) ==
    \A c \in DOMAIN t : Walls(w, c) # {} => t[c] <= Bottom(w, c)
WellFormed(t, w, s) ==
    WallsOK(w) /\ SlabsRest(w, s) /\ SlabsClear(w, s) /\ GroundClear(t, w)
=============================================================================
