------------------------------- MODULE Relax --------------------------------
(***************************************************************************)
(* Avalanches.  dh is the largest stable height difference between two     *)
(* side-by-side columns.  A "flow" tells where the soil of a too steep     *)
(* pair goes: slot 0 (ground) or the wall slot 1/2, the height `top` it    *)
(* is compared with, and `cap`, the height it must not exceed.             *)
(***************************************************************************)
EXTENDS SoilCore

NoFlow == [k |-> -1, top |-> 0, cap |-> 0]
Flow(k, top, cap) == [k |-> k, top |-> top, cap |-> cap]

\* Ground of height tp next to column q.
GroundFlow(t, w, s, tp, q, dh) ==
    LET ws == Walls(w, q)
        f == IF ws = {} THEN Flow(0, t[q], Inf)
             ELSE IF t[q] < Bottom(w, q) THEN Flow(0, t[q], Bottom(w, q))
             ELSE IF ws = {1} THEN Flow(1, TopOn(w, s, q, 1), Inf)
             ELSE IF ws = {2} THEN Flow(2, TopOn(w, s, q, 2), Inf)
             ELSE LET b == LowerWall(w, q)
                      p == Other(b)
                      full == Has(s[q][b]) /\ Hi(s[q][b]) >= Lo(w[q][p])
                  IN IF full THEN Flow(p, TopOn(w, s, q, p), Inf)
                     ELSE Flow(b, TopOn(w, s, q, b), Lo(w[q][p]))
    IN IF t[q] < tp - dh /\ f.top < tp - dh THEN f ELSE NoFlow

GroundAmount(f, tp, dh) == Min2(tp - Half(dh + tp + f.top), f.cap - f.top)

\* Slab of top S on a wall of top W next to column q.
SlabFlow(t, w, s, S, W, q, dh) ==
    LET ws == Walls(w, q)
        f == IF ws = {} THEN Flow(0, t[q], Inf)
             ELSE IF ws # {1, 2} THEN
                 LET i == CHOOSE i \in ws : TRUE
                 IN IF W < Lo(w[q][i]) THEN Flow(0, t[q], Lo(w[q][i]))
                    ELSE Flow(i, TopOn(w, s, q, i), Inf)
             ELSE LET b == LowerWall(w, q)
                      p == Other(b)
                      full == Has(s[q][b]) /\ Hi(s[q][b]) >= Lo(w[q][p])
                  IN IF W < Lo(w[q][p]) /\ ~full
                     THEN Flow(b, TopOn(w, s, q, b), Lo(w[q][p]))
                     ELSE Flow(p, TopOn(w, s, q, p), Inf)
    IN IF f.top < S - dh THEN f ELSE NoFlow

SlabAmount(f, S, h, dh) ==
    Min2(Min2(S - Half(dh + S + f.top), h), f.cap - f.top)

----------------------------------------------------------------------------
\* First-order selection of ground columns to look at, in area a (half open).
Candidates(t, a, dh) ==
    {c \in DOMAIN t :
        /\ c[1] >= a[1] /\ c[1] < a[2] /\ c[2] >= a[3] /\ c[2] < a[4]
        /\ \E d \in Dir4 : Add(c, d) \in DOMAIN t /\ t[Add(c, d)] < t[c] - dh}

UnstableDirs(t, w, s, c, D, dh) ==
    {d \in D : Add(c, d) \in DOMAIN t
               /\ GroundFlow(t, w, s, t[c], Add(c, d), dh) # NoFlow}
SlabUnstableDirs(t, w, s, c, k, D, dh) ==
    IF ~Has(s[c][k]) THEN {}
    ELSE {d \in D : Add(c, d) \in DOMAIN t
               /\ SlabFlow(t, w, s, Hi(s[c][k]), Hi(w[c][k]), Add(c, d), dh)
                     # NoFlow}

\* Nothing can avalanche: neither ground inside a, nor any carried parcel.
GroundStable(t, w, s, a, dh) ==
    \A c \in Candidates(t, a, dh) : UnstableDirs(t, w, s, c, Dir4, dh) = {}
SlabsStable(t, w, s, r, dh) ==
    \A e \in DOMAIN r :
        SlabUnstableDirs(t, w, s, <<e[1], e[2]>>, e[3], Dir4, dh) = {}

\* Bounding box of the candidate columns, widened and clamped.
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RelaxArea(C, buf, hx, hy) ==
    << Max2(SetMin({c[1] : c \in C}) - buf, 2),
       Min2(SetMax({c[1] : c \in C}) + buf, 2 * hx),
       Max2(SetMin({c[2] : c \in C}) - buf, 2),
       Min2(SetMax({c[2] : c \in C}) + buf, 2 * hy) >>
Union2(a, b) == << Min2(a[1], b[1]), Max2(a[2], b[2]),
                   Min2(a[3], b[3]), Max2(a[4], b[4]) >>
=============================================================================
