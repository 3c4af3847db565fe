------------------------------- MODULE MCPairs ------------------------------
(***************************************************************************)
(* One treatment of one pair of side-by-side columns, for every            *)
(* arrangement of ground, walls and carried soil in the neighbour (up to   *)
(* the bounds below): the rules of Relax are checked on all of them, and   *)
(* each is printed with its outcome for replay on the implementation.      *)
(*                                                                         *)
(* kind "ground": the ground of column C, of height 0, next to column Q.   *)
(* kind "slab": np parcels of equal thickness ph on a wall of C whose top  *)
(* is at height 0, next to Q.                                              *)
(***************************************************************************)
EXTENDS Relax
CONSTANTS Kind, Dhs, Heaps     \* Heaps: 10 * number of parcels + thickness

VARIABLE p      \* the arrangement
vars == <<p>>

C == <<0, 0>>
Q == <<1, 0>>

HeapTop(hp) == hp[1] * hp[2]
Top == IF Kind = "ground" THEN 0 ELSE 6

\* Arrangements of the neighbour: <<ground, wall 1, wall 2, slab 1, slab 2>>.
Slab(wall, h) == IF h = 0 THEN None ELSE <<wall[2], wall[2] + h>>
Slots(k, a, b) == IF k = 1 THEN <<a, b>> ELSE <<b, a>>
Bare == {[t |-> h, w |-> <<None, None>>, s |-> <<None, None>>] : h \in -7..Top}
One == {LET wall == <<lo, lo + th>>
        IN [t |-> lo - room, w |-> Slots(k, wall, None),
            s |-> Slots(k, Slab(wall, h), None)] :
          k \in 1..2, lo \in (-6)..(Top + 2), th \in 1..2, room \in {0, 1, 2, 4},
          h \in 0..4}
Two == {LET a == <<lo, lo + th>>
            b == <<lo + th + gap, lo + th + gap + 1>>
        IN [t |-> lo - room, w |-> Slots(k, a, b),
            s |-> Slots(k, Slab(a, Min2(h, gap)), Slab(b, g))] :
          k \in 1..2, lo \in (-6)..(Top + 1), th \in 1..2, gap \in 1..3,
          room \in {0, 1, 3}, h \in 0..3, g \in {0, 1, 3}}
Init == p \in [dh : Dhs, hp : {<<h \div 10, h % 10>> : h \in Heaps},
              q : Bare \cup One \cup Two]
Spec == Init /\ [][FALSE]_vars

----------------------------------------------------------------------------
\* The world of the pair.
T0 == (C :> (IF Kind = "ground" THEN 0 ELSE -2)) @@ (Q :> p.q.t)
W0 == (C :> <<IF Kind = "ground" THEN None ELSE <<-2, 0>>, None>>)
      @@ (Q :> p.q.w)
S0 == (C :> <<IF Kind = "ground" THEN None ELSE <<0, HeapTop(p.hp)>>, None>>)
      @@ (Q :> p.q.s)

\* Outcome: [t, s, new] with `new` the amounts put on a wall of Q, in order.
Ground ==
    LET f == GroundFlow(T0, W0, S0, 0, Q, p.dh)
        a == GroundAmount(f, 0, p.dh)
    IN IF f = NoFlow THEN [t |-> T0, s |-> S0, new |-> <<>>, left |-> <<>>]
       ELSE IF f.k = 0
       THEN [t |-> [T0 EXCEPT ![C] = @ - a, ![Q] = @ + a], s |-> S0,
             new |-> <<>>, left |-> <<>>]
       ELSE [t |-> [T0 EXCEPT ![C] = @ - a], s |-> Deposit(W0, S0, Q, f.k, a),
             new |-> << <<f.k, a>> >>, left |-> <<>>]
RECURSIVE Parcels(_, _, _, _, _)
Parcels(n, t, s, new, left) ==
    IF n = 0 THEN [t |-> t, s |-> s, new |-> new, left |-> left]
    ELSE IF ~Has(s[C][1])
    THEN Parcels(n - 1, t, s, new, Append(left, p.hp[2]))
    ELSE LET S == Hi(s[C][1])
             f == SlabFlow(t, W0, s, S, 0, Q, p.dh)
             a == IF f = NoFlow THEN 0 ELSE SlabAmount(f, S, p.hp[2], p.dh)
             s1 == Withdraw(s, C, 1, a)
             l1 == IF a = p.hp[2] THEN left ELSE Append(left, p.hp[2] - a)
         IN IF a = 0 THEN Parcels(n - 1, t, s, new, l1)
            ELSE IF f.k = 0
            THEN Parcels(n - 1, [t EXCEPT ![Q] = @ + a], s1, new, l1)
            ELSE Parcels(n - 1, t, Deposit(W0, s1, Q, f.k, a),
                         Append(new, <<f.k, a>>), l1)
After == TLCEval(IF Kind = "ground" THEN Ground
                 ELSE Parcels(p.hp[1], T0, S0, <<>>, <<>>))

----------------------------------------------------------------------------
TypeOK == WellFormed(T0, W0, S0)
\* The rules keep a pair well-formed and its soil.
Kept == LET a == After IN WellFormed(a.t, W0, a.s) /\ Mass(a.t, a.s) = Mass(T0, S0)
\* A pair of bare columns ends at the limit or just below it, and is stable.
Levelled ==
    (Kind = "ground" /\ p.q.w = <<None, None>>) =>
        LET a == After
            gap == a.t[C] - a.t[Q]
        IN IF p.q.t < -p.dh THEN gap \in {p.dh, p.dh - 1} ELSE gap = -p.q.t
\* A treatment leaves the pair stable unless there was no room for more.
Settled ==
    Kind = "ground" =>
        LET a == After
            f == GroundFlow(a.t, W0, a.s, a.t[C], Q, p.dh)
            g == GroundFlow(T0, W0, S0, 0, Q, p.dh)
        IN f = NoFlow \/ g = NoFlow \/ f.k # g.k \* went on elsewhere
           \/ f.cap - f.top = 0
\* Soil never moves up.
Downhill ==
    Kind = "ground" => LET f == GroundFlow(T0, W0, S0, 0, Q, p.dh)
                       IN f # NoFlow => /\ f.top < -p.dh
                                        /\ GroundAmount(f, 0, p.dh) > 0
Invs == TypeOK /\ Kept /\ Levelled /\ Settled /\ Downhill

\* The soil carried by the neighbour stays out of it.
QuietIn(t, s) == \A k \in 1..2 :
    Has(s[Q][k]) => SlabFlow(t, W0, s, Hi(s[Q][k]), Hi(W0[Q][k]), C, p.dh)
                      = NoFlow
Alone == LET a == After IN Kind = "ground" \/ (QuietIn(T0, S0) /\ QuietIn(a.t, a.s))
\* One line per arrangement, for the implementation.
Iv(v) == IF v = None THEN <<0, 0>> ELSE v
Show == LET a == After
        IN ~Alone \/ PrintT(<<"PAIR", p.dh, p.hp[1], p.hp[2], p.q.t,
                    Iv(p.q.w[1]), Iv(p.q.w[2]), Iv(p.q.s[1]), Iv(p.q.s[2]),
                    "=>", a.t[C], a.t[Q], Iv(a.s[C][1]), Iv(a.s[Q][1]),
                    Iv(a.s[Q][2]), a.new, a.left>>)
=============================================================================
