----------------------------- MODULE TraceFacts -----------------------------
(***************************************************************************)
(* State and transition predicates of the specification evaluated on       *)
(* recorded executions.  A line of the trace is one execution: `what` (the *)
(* operation), `st` (the state before it and the states after it; for a    *)
(* whole step the states after 0, 1, 2, ... avalanche passes) and `want`,  *)
(* the predicates to evaluate.                                             *)
(***************************************************************************)
EXTENDS Relax, Pose, TraceData

VARIABLES n, bad

\* A recorded state as specification values.
World(L, j) ==
    [t |-> GroundOf(L.X, L.Y, j), w |-> WallsOf(L.X, L.Y, j),
     s |-> SlabsOf(L.X, L.Y, j), r |-> ParcelsOf(j)]

Passes == {"relaxt", "relaxb"}
InBox(c, a) == c[1] >= a[1] /\ c[1] < a[2] /\ c[2] >= a[3] /\ c[2] < a[4]

----------------------------------------------------------------------------
\* C01.  Whole cells; the only loss is announced by a warning.
MassKept(L) ==
    LET m0 == MassOf(L.X, L.Y, L.st[1])
    IN \A i \in 2..Len(L.st) :
          LET m == MassOf(L.X, L.Y, L.st[i])
          IN \/ m = m0
             \/ /\ m < m0
                /\ L.st[i].warn > 0
                /\ L.what \in {"movebs", "moveall", "step"}

\* C02.
LedgerKept(L, S) == \A i \in 2..Len(S) : LedgerOK(S[i].s, S[i].r)

\* C03.
Structure(L, S) ==
    \A i \in 2..Len(S) :
        LET x == S[i]
        IN CASE L.what \in {"step", "moveall"} -> WellFormed(x.t, x.w, x.s)
             [] L.what \in Passes ->
                    WellFormed(S[1].t, S[1].w, S[1].s) =>
                        WellFormed(x.t, x.w, x.s)
             [] L.what = "movebs" -> SlabsRest(x.w, x.s) /\ SlabsClear(x.w, x.s)
             [] L.what = "movebody" ->    \* in the tool region
                    \A c \in DOMAIN x.t :
                       (InBox(c, L.st[1].ba) /\ Walls(x.w, c) # {}) =>
                           x.t[c] <= Bottom(x.w, c)
             [] L.what = "carry" -> WallsOK(x.w) /\ SlabsRest(x.w, x.s)
             [] OTHER -> FALSE

\* C20.  `dev` is the largest distance of a height to the lattice, 1e-5 cells.
OnLattice(L) == \A i \in 2..Len(L.st) : L.st[i].off = 0 /\ L.st[i].dev <= 100

----------------------------------------------------------------------------
\* C06.  st[1] before the step, st[2] after the displacement (zero passes),
\* st[i] after i - 2 passes.
Same(a, b) == a.t = b.t /\ a.s = b.s /\ a.w = b.w /\ a.r = b.r
PassArea(L, i) == Union2(L.st[i].ba, L.st[i].ra)
FlagRight(L, S) ==
    /\ L.st[2].eq = FALSE
    /\ \A i \in 3..Len(S) :
          IF L.st[i - 1].eq
          THEN Same(S[i - 1], S[i]) /\ L.st[i].eq
          ELSE LET x == S[i - 1]
                   calm == /\ GroundStable(x.t, x.w, x.s, PassArea(L, i - 1), L.dh)
                           /\ SlabsStable(x.t, x.w, x.s, x.r, L.dh)
               IN /\ L.st[i].eq = calm
                  /\ calm => Same(x, S[i])
\* Given enough passes, ground out of reach of the tool settles.
Settled(L, S) ==
    (L.dh >= 1 /\ \A c \in DOMAIN S[2].t : Walls(S[2].w, c) = {} \/
        S[2].t[c] + 6 < Bottom(S[2].w, c)) => L.st[Len(S)].eq
\* A reported equilibrium is one.
FlagSound(L, S) ==
    \A i \in 2..Len(S) :
        L.st[i].eq => /\ GroundStable(S[i].t, S[i].w, S[i].s, L.st[i].ia, L.dh)
                      /\ SlabsStable(S[i].t, S[i].w, S[i].s, S[i].r, L.dh)

----------------------------------------------------------------------------
\* C12.
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* Cell index of a coordinate: both neighbours when it is (almost) a tie.
CellOf(v, cell, half, eps) ==
    {half + NearDiv(v - eps, cell), half + NearDiv(v + eps, cell)}
SetMinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
BodyAreas(L) ==
    LET c == Corners(L.tool, L.q, L.p)
        \* the far side of a blade is one cell behind its front
        far == IF L.blade
               THEN LET m == UnitNormal(c[1], c[2], c[4])
                        off == [k \in 1..3 |->
                                  NearDiv(L.cxy * m[k], NormalScale)]
                    IN {VAdd(c[k], off) : k \in 1..6}
               ELSE {}
        all == {c[k] : k \in 1..6} \cup far
        x0 == SetMinOf({v[1] : v \in all})
        x1 == SetMaxOf({v[1] : v \in all})
        y0 == SetMinOf({v[2] : v \in all})
        y1 == SetMaxOf({v[2] : v \in all})
        e == 12
    IN {<<Max2(a - L.buf, 1), Min2(b + L.buf, 2 * L.hx),
          Max2(u - L.buf, 1), Min2(v + L.buf, 2 * L.hy)>> :
            a \in CellOf(x0, L.cxy, L.hx, e), b \in CellOf(x1, L.cxy, L.hx, e),
            u \in CellOf(y0, L.cxy, L.hy, e), v \in CellOf(y1, L.cxy, L.hy, e)}
ToolRegion(L) == \A i \in 2..Len(L.st) : L.st[i].ba \in BodyAreas(L)
\* Before any pass the other regions are untouched; each pass renews them.
PassRegions(L, S) ==
    /\ L.st[2].ra = L.st[1].ra /\ L.st[2].ia = L.st[1].ia
    /\ \A i \in 3..Len(S) :
          IF L.st[i - 1].eq
          THEN L.st[i].ra = L.st[i - 1].ra /\ L.st[i].ia = L.st[i - 1].ia
          ELSE LET a == PassArea(L, i - 1)
                   C == Candidates(S[i - 1].t, a, L.dh)
               IN /\ L.st[i].ia = a
                  /\ L.st[i].ra = IF C = {} THEN L.st[i - 1].ra
                                  ELSE RelaxArea(C, L.buf, L.hx, L.hy)
Changed(x, y) == {c \in DOMAIN x.t : x.t[c] # y.t[c] \/ x.s[c] # y.s[c]}
Grown(C) == C \cup {Add(c, d) : c \in C, d \in Dir4}
PassLocal(L, S) ==
    \A i \in 3..Len(S) :
        LET a == PassArea(L, i - 1)
            x == S[i - 1]
            C == Grown(Candidates(x.t, a, L.dh))
            \* parcels treated: the old ones and those just made in C
            P == Grown({<<e[1], e[2]>> : e \in DOMAIN x.r} \cup C)
        IN Changed(x, S[i]) \subseteq (C \cup P)
\* Nothing outside the region of the pass is looked at.
OnePassLocal(L, S) ==
    LET C == Candidates(S[1].t, L.st[1].ia, L.dh)
    IN Changed(S[1], S[2]) \subseteq
          (IF L.what = "relaxt" THEN Grown(C)
           ELSE Grown({<<e[1], e[2]>> : e \in DOMAIN S[1].r}))
OnePassRegions(L, S) ==
    IF L.what = "relaxt"
    THEN LET C == Candidates(S[1].t, L.st[1].ia, L.dh)
         IN /\ L.st[2].ia = L.st[1].ia /\ L.st[2].ba = L.st[1].ba
            /\ L.st[2].ra = IF C = {} THEN L.st[1].ra
                            ELSE RelaxArea(C, L.buf, L.hx, L.hy)
    ELSE L.st[2].ia = L.st[1].ia /\ L.st[2].ba = L.st[1].ba
         /\ L.st[2].ra = L.st[1].ra
\* Without a buried wall in the tool region and without squeezed soil nothing
\* is displaced; a buried wall outside the region is left alone.
Squeeze(x) == {e \in DOMAIN x.r :
                  LET c == <<e[1], e[2]>>
                      o == Other(e[3])
                  IN Has(x.w[c][o]) /\ Has(x.w[c][e[3]]) /\ Has(x.s[c][e[3]])
                     /\ Lo(x.w[c][o]) > Lo(x.w[c][e[3]])
                     /\ Hi(x.s[c][e[3]]) > Lo(x.w[c][o])}
Sunk(x, a) == {c \in DOMAIN x.t : InBox(c, a) /\ Walls(x.w, c) # {}
                                  /\ x.t[c] > Bottom(x.w, c)}
DisplaceLocal(L, S) ==
    LET x == S[1]
        y == S[2]
    IN /\ (Sunk(x, L.st[1].ba) = {} /\ Squeeze(x) = {}) => Same(x, y)
       /\ \A c \in DOMAIN x.t :      \* ground sinks only in the tool region
             y.t[c] < x.t[c] => c \in Sunk(x, L.st[1].ba)
       /\ L.st[2].ba = L.st[1].ba /\ L.st[2].ra = L.st[1].ra
       /\ L.st[2].ia = L.st[1].ia

----------------------------------------------------------------------------
Holds(p, L, S) ==
    CASE p = "mass" -> MassKept(L)
      [] p = "ledger" -> LedgerKept(L, S)
      [] p = "structure" -> Structure(L, S)
      [] p = "lattice" -> OnLattice(L)
      [] p = "flag" -> FlagRight(L, S)
      [] p = "flagsound" -> FlagSound(L, S)
      [] p = "settled" -> Settled(L, S)
      [] p = "toolregion" -> ToolRegion(L)
      [] p = "passregions" -> PassRegions(L, S)
      [] p = "passlocal" -> PassLocal(L, S)
      [] p = "onepass" -> OnePassRegions(L, S) /\ OnePassLocal(L, S)
      [] p = "displacelocal" -> DisplaceLocal(L, S)
Cheap == {"mass", "lattice", "toolregion"}
Verdict(i) ==
    LET L == Trace[i]
        want == {L.want[k] : k \in 1..Len(L.want)}
        S == IF want \subseteq Cheap THEN <<>>
             ELSE TLCEval([k \in 1..Len(L.st) |-> TLCEval(World(L, L.st[k]))])
    IN {p \in want : ~Holds(p, L, S)}

Init == /\ n \in 1..Len(Trace)
        /\ bad = Verdict(n)
        /\ IF bad = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
