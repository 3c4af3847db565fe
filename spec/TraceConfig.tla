----------------------------- MODULE TraceConfig ----------------------------
(***************************************************************************)
(* Which configurations are accepted and what is built from them.  Lengths *)
(* are integers, 1e-4 m; angles 1e-4 rad.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES n, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
Abs(a) == IF a < 0 THEN -a ELSE a
Near(a, b, e) == Abs(a - b) <= e
HalfPi == 15708

ValidGrid(a) ==     \* a = sizes x, y, z, cell width, cell height
    /\ \A k \in 1..5 : a[k] > 0
    /\ a[5] <= a[4]
    /\ a[1] >= a[4] /\ a[2] >= a[4] /\ a[3] >= a[5]
ValidParam(a) ==    \* a = repose angle, passes, margin
    a[1] >= 0 /\ a[1] < HalfPi /\ a[2] >= 0 /\ a[3] >= 2
ValidBody(v, w) ==  \* v = origin, joint, base, teeth
    /\ \A k \in 1..4 : Len(v[k]) = 3
    /\ v[2] # v[3] /\ v[2] # v[4] /\ v[3] # v[4]
    /\ w > 0
Round(a, b) == (2 * a + b) \div (2 * b)
Half(a, k) == Round(a[k], IF k = 3 THEN a[5] ELSE a[4])
\* an axis: centred on the origin, also when the extent is no whole number of
\* cells
Axis(cell, top, first, mid, last, half, count) ==
    /\ count = 2 * half + 1
    /\ Near(first, top - half * cell, 1) /\ Near(mid, top, 2)
    /\ Near(last, top + half * cell, 3)
BuiltGrid(a, R) ==
    /\ R.half = <<Half(a, 1), Half(a, 2), Half(a, 3)>>
    /\ Axis(a[4], 0, R.x0, R.xm, R.x1, R.half[1], R.nx)
    /\ Axis(a[4], 0, R.y0, R.ym, R.y1, R.half[2], R.ny)
    \* a cell is represented by the centre of its top face
    /\ Axis(a[5], a[5], R.z0, R.zm, R.z1, R.half[3], R.nz)
    /\ R.cxy = a[4] /\ R.cz = a[5]
    /\ Near(R.area, a[4] * a[4], 5)
    /\ Near(R.vol, a[4] * a[4] * a[5], 500)
    \* the world built on it starts empty, flat and fully active
    /\ R.shape /\ R.zero
    /\ \A x \in {R.ba, R.ra, R.ia} :
          x = <<1, 2 * R.half[1], 1, 2 * R.half[2]>>
BuiltParam(a, R) == R.rep = a[1] /\ R.mi = a[2] /\ R.cb = a[3]
Rel(u, o) == [k \in 1..3 |-> u[k] - o[k]]
BuiltBody(v, w, R) ==
    /\ R.j = Rel(v[2], v[1]) /\ R.b = Rel(v[3], v[1]) /\ R.tt = Rel(v[4], v[1])
    /\ R.width = w /\ R.p0 = <<0, 0, 0>>
Holds(C) ==
    LET R == C.res
        ok == CASE C.kind = "grid" -> ValidGrid(C.a)
                [] C.kind = "param" -> ValidParam(C.a)
                [] OTHER -> ValidBody(C.v, C.w)
    IN /\ R.ok = ok
       /\ ~ok => R.inval
       /\ ok => CASE C.kind = "grid" -> BuiltGrid(C.a, R)
                  [] C.kind = "param" -> BuiltParam(C.a, R)
                  [] OTHER -> BuiltBody(C.v, C.w, R)
Wrong(L) == {k \in 1..Len(L.cases) : ~Holds(L.cases[k])}
Init == /\ n \in 1..Len(Trace)
        /\ bad = Wrong(Trace[n])
        /\ IF bad = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
