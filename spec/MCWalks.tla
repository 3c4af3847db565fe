------------------------------- MODULE MCWalks ------------------------------
(***************************************************************************)
(* Squeezed soil that can leave its column in one direction only, for      *)
(* every arrangement (up to the bounds below) of the next columns: the     *)
(* walk rule of Displace is checked on all of them, and each is printed    *)
(* with its outcome for replay on the implementation.                      *)
(* The soil lies on a wall whose top is at height 0; the wall above it     *)
(* starts at height Gap; Amt is the thickness that sticks into it.         *)
(***************************************************************************)
EXTENDS Displace, SequencesExt
CONSTANTS Gap, Amts, Big

VARIABLE p
Col(n) == <<n, 0>>
Slab(wall, h) == IF h = 0 THEN None ELSE <<wall[2], wall[2] + h>>
Slots(k, a, b) == IF k = 1 THEN <<a, b>> ELSE <<b, a>>
None2 == <<None, None>>
Alt(n) == IF n \in {-8,-6,-4,-2,0,2,4,6,8} THEN 1 ELSE 2
Bare == [w |-> None2, s |-> None2]
OneWall(k, lo, th, h) ==
    LET a == <<lo, lo + th>>
    IN [w |-> Slots(k, a, None), s |-> Slots(k, Slab(a, h), None)]
TwoWalls(k, lo, th, gap, h, g) ==
    LET a == <<lo, lo + th>>
        b == <<lo + th + gap, lo + th + gap + 1>>
    IN [w |-> Slots(k, a, b), s |-> Slots(k, Slab(a, h), Slab(b, g))]
One == {OneWall(k, lo, th, h) : k \in 1..2, lo \in (-3)..3, th \in 1..3, h \in {0, 2}}
Two == {TwoWalls(k, lo, th, gap, Min2(h, gap), g) :
          k \in 1..2, lo \in (-3)..2, th \in 1..2, gap \in 1..3, h \in 0..3,
          g \in {0, 2}}
Next1 == {Bare} \cup One \cup Two
\* After a column with two walls.
Next2 == {Bare} \cup {OneWall(Alt(lo + th), lo, th, 1) :
                        lo \in (-3)..3, th \in {1, 3, 4}}
         \cup {TwoWalls(Alt(lo + gap), lo, 1, gap, h, 0) :
                 lo \in (-2)..1, gap \in 1..2, h \in 0..1}
Stop == [w |-> <<<<-50, 50>>, None>>, s |-> None2]
Init == p \in [amt : Amts, c1 : Next1, c2 : {Bare}, c3 : {Bare}]
             \cup [amt : Amts, c1 : Two,
                   c2 : IF Big THEN Next1 ELSE Next2, c3 : {Bare, Stop}]
Spec == Init /\ [][FALSE]_p

----------------------------------------------------------------------------
Floor == [w |-> <<<<-1, 0>>, <<Gap, Gap + 1>>>>, s |-> <<<<0, Gap>>, None>>]
At(n) == CASE n = 0 -> Floor [] n = 1 -> p.c1 [] n = 2 -> p.c2 [] OTHER -> p.c3
Cols == {Col(n) : n \in 0..3}
\* Bottoms of the walls are above the ground.
T0 == [c \in Cols |-> -60]
W0 == [c \in Cols |-> At(c[1]).w]
S0 == [c \in Cols |-> At(c[1]).s]
After == TLCEval(WalkFrom(T0, W0, S0, EmptyB, Col(0), <<1, 0>>, 1, Col(0), 1,
                          Gap, p.amt))
----------------------------------------------------------------------------
Proper == WallsOK(W0) /\ SlabsRest(W0, S0) /\ SlabsClear(W0, S0)
\* Nothing appears or disappears on the way; what is put down on walls is
\* accounted for parcel by parcel, and slabs do not enter walls.
Kept == LET a == After
        IN /\ Mass(a.t, a.s) + a.left = Mass(T0, S0) + p.amt
           /\ SlabMass(a.s) - SlabMass(S0)
                = Total(DOMAIN a.r, LAMBDA e : a.r[e] * e[4])
           /\ SlabsRest(W0, a.s) /\ SlabsClear(W0, a.s)
           /\ a.left >= 0
\* Soil is never put on a wall that reaches the ceiling it came under.
Blocked == (Walls(W0, Col(1)) # {} /\ Walls(W0, Col(1)) # {1, 2}) =>
    LET k == CHOOSE k \in 1..2 : Has(W0[Col(1)][k])
        a == After
    IN /\ (a.s[Col(1)] # S0[Col(1)]) => Hi(W0[Col(1)][k]) < Gap
       /\ (a.t[Col(1)] # T0[Col(1)]) => Lo(W0[Col(1)][k]) > 0

Iv(v) == IF v = None THEN <<0, 0>> ELSE v
Flat(n, t, w, s) == <<t[Col(n)], Iv(w[Col(n)][1]), Iv(w[Col(n)][2]),
                      Iv(s[Col(n)][1]), Iv(s[Col(n)][2])>>
Show == LET a == After
        IN PrintT(<<"PAIR", Gap, p.amt,
                    [n \in 1..3 |-> Flat(n, T0, W0, S0)], "=>",
                    [n \in 1..3 |-> Flat(n, a.t, W0, a.s)],
                    SetToSeq({<<e[1], e[3], e[4]>> : e \in DOMAIN a.r}),
                    a.left>>)
=============================================================================
