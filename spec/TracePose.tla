------------------------------ MODULE TracePose -----------------------------
(***************************************************************************)
(* Recorded values of the pose functions against exact integer geometry.   *)
(* Lengths in 1e-5 m, quaternions of results in 1e-5.                      *)
(***************************************************************************)
EXTENDS Pose, Json, IOUtils, SequencesExt
VARIABLES n, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)

Close(u, v, e) == \A k \in 1..Len(u) : Abs(u[k] - v[k]) <= e
Neg(q) == [k \in 1..4 |-> -q[k]]
\* An integer vector scaled to `s` times its direction.
Direction(q, s) == LET len2 == Norm2(q)
                       f == ISqrt(len2 * 100)         \* 10 |q|
                   IN [k \in 1..4 |-> NearDiv(q[k] * s * 10, f)]
\* Euler angles by the cosine and sine of their halves, <<c, s, r>> with
\* c^2 + s^2 = r^2: yaw, pitch, roll.
EulerNum(A) == QMul(<<A[1][1], 0, 0, A[1][2]>>,
                    QMul(<<A[2][1], 0, A[2][2], 0>>, <<A[3][1], A[3][2], 0, 0>>))
Euler(A) == LET d == A[1][3] * A[2][3] * A[3][3]
                m == EulerNum(A)
            IN [k \in 1..4 |-> NearDiv(m[k] * 1000, d) * 100]
\* more digits: the remainder of the division, refined
EulerFine(A) == LET d == A[1][3] * A[2][3] * A[3][3]
                    m == EulerNum(A)
                    hi(v) == (v * 1000) \div d
                    lo(v) == NearDiv((v * 1000 - hi(v) * d) * 100, d)
                IN [k \in 1..4 |-> hi(m[k]) * 100 + lo(m[k])]
Dist2(u, v) == Len2(Coarse(VSub(u, v)))
\* |a| = |b| up to rounding, on squared lengths of 1e-4 m
SameLen(a, b) == Abs(a - b) <= 4 * ISqrt(a) + 10

Holds(O, L) ==
    CASE O.op = "rotate" -> Close(O.out, Rotate(O.q, O.v), 2)
      [] O.op = "mulq" -> O.out = QMul(O.a, O.b)
      [] O.op = "angle" -> LET e == EulerFine(O.a)
                           IN Close(O.out, e, 3) \/ Close(O.out, Neg(e), 3)
      [] O.op = "normal" ->
            Close(O.out, [k \in 1..3 |-> 10 * UnitNormal(O.a, O.b, O.c)[k]], 60)
      [] O.op = "corners" ->
            LET want == Corners(L.tool, O.q, O.p)
                ref == BodyCorners(L.tool)
            IN /\ \A k \in 1..6 : Close(O.out[k], want[k], 15)
               \* rigid: the distances are those of the reference corners
               /\ \A i, j \in 1..6 : SameLen(Dist2(O.out[i], O.out[j]),
                                            Dist2(ref[i], ref[j]))
      [] O.op = "bodyframe" ->
            LET x == <<(O.i - L.hx) * L.cxy, (O.j - L.hy) * L.cxy, O.z>>
            IN /\ Close(O.out, ToFrame(O.q, O.p, x), 3)
               \* placing the result with the pose of the tool gives x back
               /\ Close(Place(O.q, O.p, O.out), x, 5)
Wrong(L) == {k \in 1..Len(L.ops) : ~Holds(L.ops[k], L)}
Init == /\ n \in 1..Len(Trace)
        /\ bad = Wrong(Trace[n])
        /\ IF bad = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
