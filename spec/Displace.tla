------------------------------ MODULE Displace ------------------------------
(***************************************************************************)
(* Soil pushed out of the way by the tool.                                 *)
(*                                                                         *)
(* Slab: a parcel squeezed into the upper wall of its own column walks in  *)
(*       one of the eight directions until it is absorbed or blocked.      *)
(* Ground: ground inside a wall is spread over rings of columns around it. *)
(***************************************************************************)
EXTENDS SoilCore

\* Thickness of parcel <<x, y, k, h>> that sticks into the wall above it.
Squeezed(w, s, e) ==
    LET c == <<e[1], e[2]>>
        k == e[3]
        o == Other(k)
    IN IF Has(w[c][o]) /\ Has(s[c][k]) /\ Has(w[c][k])
          /\ Lo(w[c][o]) > Lo(w[c][k]) /\ Hi(s[c][k]) > Lo(w[c][o])
       THEN Min2(Hi(s[c][k]) - Lo(w[c][o]), e[4])
       ELSE 0

UpperLo(w, c) == Max2(Lo(w[c][1]), Lo(w[c][2]))

\* Walk of an amount from column c in direction d.  (pc, pk) is the wall the
\* soil comes from, n the distance reached, maxh the ceiling it must clear.
RECURSIVE WalkFrom(_, _, _, _, _, _, _, _, _, _, _)
WalkFrom(t, w, s, r, c, d, n, pc, pk, maxh, amt) ==
    LET q == Step2(c, d, n)
        ws == IF q \in DOMAIN t THEN Walls(w, q) ELSE {}
    IN IF q \notin DOMAIN t
       THEN [t |-> t, s |-> s, r |-> r, left |-> amt]        \* off the grid
       ELSE IF ws = {}
       THEN [t |-> [t EXCEPT ![q] = @ + amt], s |-> s, r |-> r, left |-> 0]
       ELSE IF ws # {1, 2}
       THEN LET j == CHOOSE j \in ws : TRUE
            IN IF Lo(w[q][j]) > Hi(w[pc][pk])     \* slides below this wall
               THEN [t |-> [t EXCEPT ![q] = @ + amt], s |-> s, r |-> r,
                     left |-> 0]
               ELSE IF Hi(w[q][j]) >= maxh        \* blocked by this wall
               THEN [t |-> t, s |-> s, r |-> r, left |-> amt]
               ELSE [t |-> t, s |-> Deposit(w, s, q, j, amt),
                     r |-> AddB(r, <<q[1], q[2], j, amt>>), left |-> 0]
       ELSE LET b == LowerWall(w, q)
                room == Lo(w[q][Other(b)]) - TopOn(w, s, q, b)
                go(s2, r2, a2) == WalkFrom(t, w, s2, r2, c, d, n + 1, q, b,
                                           UpperLo(w, q), a2)
            IN IF Has(s[q][b]) /\ room <= 0
               THEN go(s, r, amt)                  \* full: pass above
               ELSE IF room < amt
               THEN go(Deposit(w, s, q, b, room),
                       AddB(r, <<q[1], q[2], b, room>>), amt - room)
               ELSE [t |-> t, s |-> Deposit(w, s, q, b, amt),
                     r |-> AddB(r, <<q[1], q[2], b, amt>>), left |-> 0]

----------------------------------------------------------------------------
\* Walls with ground above their bottom, in area a (half open).
Buried(t, w, a) ==
    {ck \in (DOMAIN t) \X (1..2) :
        LET c == ck[1]
        IN /\ c[1] >= a[1] /\ c[1] < a[2] /\ c[2] >= a[3] /\ c[2] < a[4]
           /\ Has(w[c][ck[2]]) /\ t[c] > Lo(w[c][ck[2]])}

\* Directions of ring n in which some of the ground can be put down.
OpenDirs(t, w, c, n, D) ==
    {d \in D : LET q == Step2(c, d, n)
               IN q \in DOMAIN t /\ t[q] < Bottom(w, q)}
\* Amount put down there.
RingAmount(t, w, q, amt) ==
    IF Walls(w, q) = {} THEN amt ELSE Min2(amt, Bottom(w, q) - t[q])
=============================================================================
