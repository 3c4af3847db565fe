----------------------------- MODULE TraceRaster ----------------------------
(***************************************************************************)
(* Recorded cells of surfaces ("surf") and walls of placed tools ("place").*)
(***************************************************************************)
EXTENDS Raster, TLC, Json, IOUtils
VARIABLES n, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
SetOf(l) == {l[k] : k \in 1..Len(l)}
Geo(L) == [c |-> L.cxy \div 10, cz |-> L.cz \div 10, hx |-> L.hx, hy |-> L.hy]

SurfBad(L) ==
    LET cells == SetOf(L.cells)
        got == {<<e[1], e[2]>> : e \in cells}
        h == Hits(L.poly, Geo(L))
        ks(c) == {e[3] : e \in {x \in cells : x[1] = c[1] /\ x[2] = c[2]}}
    IN {c \in got \cup DOMAIN h :
          IF c \notin DOMAIN h THEN TRUE
          ELSE IF c \notin got THEN h[c][1]
          ELSE \/ Min(ks(c)) - L.hz \notin h[c][2]
               \/ Max(ks(c)) + 1 - L.hz \notin h[c][3]}
WallsAt(list, c) == {<<e[4], e[5]>> : e \in {x \in list : x[1] = c[1] /\ x[2] = c[2]}}
PlaceBad(L) ==
    LET S == TLCEval(Surfaces(Geo(L), L.tool, L.blade, L.q, L.p))
        hs == TLCEval([k \in 1..4 |-> Hits(S[k], Geo(L))])
        w == SetOf(L.w)
        cols == {<<e[1], e[2]>> : e \in w}
    IN {c \in cols \cup UNION {DOMAIN hs[k] : k \in 1..4} :
            WallsAt(w, c) \notin ColumnMay(hs, c)}
Wrong(L) == IF L.kind = "surf" THEN SurfBad(L) ELSE PlaceBad(L)
Init == /\ n \in 1..Len(Trace)
        /\ bad = Wrong(Trace[n])
        /\ IF bad = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
