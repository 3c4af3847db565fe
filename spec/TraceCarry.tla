----------------------------- MODULE TraceCarry -----------------------------
(***************************************************************************)
(* Relocations of carried soil recorded from the implementation, checked   *)
(* against Carry.  A line: constants, `old` (the parcels before, with their*)
(* anchors), `pre` and `post` states; or `fresh`, the parcels created by an*)
(* operation at pose (q1, p1), whose anchors are checked.                  *)
(***************************************************************************)
EXTENDS Carry, TraceData

VARIABLES n, why
Eps == 8            \* length units (10 micrometres)

W(L) == TLCEval(WallsOf(L.X, L.Y, L.post))
\* All results: <<bag of parcels with anchors, bag of ground additions>>.
RECURSIVE Results(_, _, _, _)
Results(L, w, i, acc) ==
    IF i > Len(L.old) THEN acc
    ELSE LET e == L.old[i]
             v == <<e[5], e[6], e[7]>>
             to == TLCEval(IF e[4] <= 0 THEN {[c |-> <<0, 0>>, k |-> -1]}
                           ELSE Landings(w, L, v, Eps))
             nxt == {IF x.k < 0 THEN a
                     ELSE IF x.k = 0
                     THEN <<a[1], AddB(a[2], <<x.c[1], x.c[2], e[4]>>)>>
                     ELSE <<AddB(a[1], <<x.c[1], x.c[2], x.k, e[4],
                                         e[5], e[6], e[7]>>), a[2]>>
                     : x \in to, a \in acc}
         IN Results(L, w, i + 1, TLCEval(nxt))

SlabsFrom(w, r) ==
    [c \in DOMAIN w |-> [k \in 1..2 |->
        LET h == Total({e \in DOMAIN r : e[1] = c[1] /\ e[2] = c[2] /\ e[3] = k},
                       LAMBDA e : r[e] * e[4])
        IN IF h = 0 THEN None ELSE <<Hi(w[c][k]), Hi(w[c][k]) + h>>]]
GroundPlus(t, b) ==
    [c \in DOMAIN t |->
        t[c] + Total({e \in DOMAIN b : e[1] = c[1] /\ e[2] = c[2]},
                     LAMBDA e : b[e] * e[3])]
\* Anchors are kept exactly (the recorded units may round either way).
SameParcels(a, b) ==
    LET less(x, y) == \A e \in DOMAIN x :
            LET like(f) == /\ f[1] = e[1] /\ f[2] = e[2] /\ f[3] = e[3]
                           /\ f[4] = e[4]
                           /\ Close(<<e[5], e[6], e[7]>>, <<f[5], f[6], f[7]>>, 1)
            IN Total({f \in DOMAIN x : like(f)}, LAMBDA f : x[f])
                 = Total({f \in DOMAIN y : like(f)}, LAMBDA f : y[f])
    IN less(a, b) /\ less(b, a)
MoveOK(L) ==
    LET w == W(L)
        pre == GroundOf(L.X, L.Y, L.pre)
        t == TLCEval(GroundOf(L.X, L.Y, L.post))
        s == TLCEval(SlabsOf(L.X, L.Y, L.post))
        r == FullParcelsOf(L.post)
        R == Results(L, w, 1, {<<EmptyB, EmptyB>>})
    IN /\ w = WallsOf(L.X, L.Y, L.pre)
       /\ \E x \in R :
            /\ SameParcels(x[1], r)
            /\ t = GroundPlus(pre, x[2])
            /\ (L.post.warn > 0) = (x[2] # EmptyB)
       /\ s = TLCEval(SlabsFrom(w, r))
       /\ Close(L.post.bp, L.p1, 2)
       /\ \* the stored orientation is the requested one (1e-4 units)
          LET nn == ISqrt(Norm2(L.q1) * 10000)
          IN \A i \in 1..4 : Abs(L.post.bo[i] * nn - L.q1[i] * 1000000) <= 400 * nn
       /\ L.post.ba = L.pre.ba /\ L.post.ra = L.pre.ra /\ L.post.ia = L.pre.ia
       /\ L.post.eq = L.pre.eq
\* Anchors of parcels that were not there before (by anchor and place).
FreshOK(L) ==
    LET w == W(L)
    IN \A i \in 1..Len(L.fresh) :
          LET e == L.fresh[i]
          IN Close(<<e[5], e[6], e[7]>>,
                   NewAnchor(w, L, <<e[1], e[2]>>, e[3], L.q1, L.p1), Eps)

Verdict(i) == LET L == Trace[i]
              IN IF L.kind = "move" THEN (IF MoveOK(L) THEN {} ELSE {"move"})
                 ELSE IF FreshOK(L) THEN {} ELSE {"anchor"}
Init == /\ n \in 1..Len(Trace)
        /\ why = Verdict(n)
        /\ IF why = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, why>>)
Spec == Init /\ [][FALSE]_<<n, why>>
=============================================================================
