----------------------------- MODULE TraceNoise -----------------------------
(***************************************************************************)
(* Recorded initialisations ("init") and values of the noise ("noise").    *)
(***************************************************************************)
EXTENDS Noise, TLC, Json, IOUtils
VARIABLES n, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
Abs(a) == IF a < 0 THEN -a ELSE a
\* Within 1/20 of a cell of the tie between two heights both are accepted.
Tie == 16777216 + 1677721
Columns(L) == (0..(L.X - 1)) \X (0..(L.Y - 1))
Terrain(L) ==
    {c \in Columns(L) :
        Abs(Height(L.perm, c[1] * L.cxy, (L.X - 1) * L.cxy, c[2] * L.cxy, (L.Y - 1) * L.cxy, L.r)
            - L.t[c[1] + 1][c[2] + 1] * 33554432) > Tie}
Shape(L) == Len(L.t) = L.X /\ \A i \in 1..L.X : Len(L.t[i]) = L.Y
Wrong(L) ==
    CASE L.kind = "init" ->
           (IF Shape(L) THEN Terrain(L) ELSE {<<-1, -1>>})
           \* nothing but the ground is touched, heights are whole cells
           \cup (IF L.rest[1] = L.rest[2] /\ L.off = 0 THEN {} ELSE {<<-2, -2>>})
           \* amplitude zero: flat at zero
           \cup (IF L.r # 0 THEN {} ELSE
                 {c \in Columns(L) : L.t[c[1] + 1][c[2] + 1] # 0})
      [] L.kind = "noise" ->
           {k \in 1..Len(L.v) :
              Abs(Simplex(L.perm, Frac(L.v[k][1], L.v[k][3]), Frac(L.v[k][2], L.v[k][3]))
                  - (L.v[k][4] * 1342) \div 100) > 2500}
Init == /\ n \in 1..Len(Trace)
        /\ bad = Wrong(Trace[n])
        /\ IF bad = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
