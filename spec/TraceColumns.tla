---------------------------- MODULE TraceColumns ----------------------------
(***************************************************************************)
(* Recorded updates of the wall intervals.                                 *)
(*  "insert"  cols: [before, interval, after] with lists of intervals      *)
(*  "surface" cells of one surface entered over given walls                *)
(*  "pose"    walls of a placement on a used world and on a fresh one      *)
(***************************************************************************)
EXTENDS Columns, TLC, Json, IOUtils, SequencesExt
VARIABLES n, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
SetOf(l) == {l[k] : k \in 1..Len(l)}
WallsAt(list, c) == {<<list[k][4], list[k][5]>> : k \in
                        {m \in 1..Len(list) : list[m][1] = c[1] /\ list[m][2] = c[2]}}
ColumnsOf(list) == {<<e[1], e[2]>> : e \in SetOf(list)}
\* Two slots with equal intervals would be one interval in two places.
NoTwins(list) == \A c \in ColumnsOf(list) :
    Cardinality({m \in 1..Len(list) : list[m][1] = c[1] /\ list[m][2] = c[2]})
        = Cardinality(WallsAt(list, c))
InsertBad(L) == {k \in 1..Len(L.cols) :
    SetOf(L.cols[k][3]) \notin Insert(SetOf(L.cols[k][1]), L.cols[k][2])}
SurfaceBad(L) ==
    LET hit == {<<e[1], e[2]>> : e \in SetOf(L.cells)}
        iv(c) == LET ks == {e[3] : e \in {x \in SetOf(L.cells) : x[1] = c[1] /\ x[2] = c[2]}}
                 IN <<Min(ks) - L.hz, Max(ks) + 1 - L.hz>>
    IN {c \in ColumnsOf(L.pre) \cup ColumnsOf(L.post) \cup hit :
          LET a == WallsAt(L.pre, c)
              b == WallsAt(L.post, c)
          IN IF c \in hit THEN b \notin Insert(a, iv(c)) ELSE a # b}
       \cup (IF NoTwins(L.post) THEN {} ELSE {"twins"})
PoseBad(L) ==
    {c \in ColumnsOf(L.used) \cup ColumnsOf(L.fresh) :
        WallsAt(L.used, c) # WallsAt(L.fresh, c)}
    \cup {c \in ColumnsOf(L.used) : ~Proper(WallsAt(L.used, c))}
    \cup (IF L.other THEN {} ELSE {"other"})
Wrong(L) == CASE L.kind = "insert" -> InsertBad(L)
              [] L.kind = "surface" -> SurfaceBad(L)
              [] L.kind = "pose" -> PoseBad(L)
Init == /\ n \in 1..Len(Trace)
        /\ bad = Wrong(Trace[n])
        /\ IF bad = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
