-------------------------------- MODULE Pose --------------------------------
(***************************************************************************)
(* Rigid poses of the tool in exact integer arithmetic.                    *)
(*                                                                         *)
(* Lengths are integers (one unit is 10 micrometres in the traces).        *)
(* Orientations are integer quaternions q = <<a, b, c, d>>, not            *)
(* necessarily normalised.  The tool frame is turned into the global frame *)
(* by  v |-> conj(q) v q / |q|^2.                                          *)
(***************************************************************************)
EXTENDS SoilCore

Norm2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
QMul(p, q) ==
    << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
       p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
       p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
       p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>

\* n / d rounded to the nearest integer, d > 0
RoundDiv(n, d) == (2 * n + d) \div (2 * d)

\* Numerators (over Norm2(q)) of the rotated vector.
RotNum(q, v) ==
    LET a == q[1]
        b == q[2]
        c == q[3]
        d == q[4]
    IN << (a*a + b*b - c*c - d*d) * v[1] + 2 * (b*c + a*d) * v[2]
             + 2 * (b*d - a*c) * v[3],
          2 * (b*c - a*d) * v[1] + (a*a - b*b + c*c - d*d) * v[2]
             + 2 * (c*d + a*b) * v[3],
          2 * (b*d + a*c) * v[1] + 2 * (c*d - a*b) * v[2]
             + (a*a - b*b - c*c + d*d) * v[3] >>
\* The sum is halved before doubling in RoundDiv would overflow: divide first.
NearDiv(n, d) == LET f == n \div d
                     m == n - f * d
                 IN IF 2 * m >= d THEN f + 1 ELSE f
Rotate(q, v) == LET n == RotNum(q, v)
                IN [i \in 1..3 |-> NearDiv(n[i], Norm2(q))]
VAdd(u, v) == [i \in 1..3 |-> u[i] + v[i]]
VSub(u, v) == [i \in 1..3 |-> u[i] - v[i]]
Place(q, p, v) == VAdd(Rotate(q, v), p)
\* The inverse: a global point in the tool frame.
ToFrame(q, p, x) == Rotate(Conj(q), VSub(x, p))

----------------------------------------------------------------------------
RECURSIVE ISqrtIter(_, _)
ISqrtIter(n, x) == LET y == (x + n \div x) \div 2
                   IN IF y >= x THEN x ELSE ISqrtIter(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtIter(n, n)

Cross(u, v) == << u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3],
                  u[1]*v[2] - u[2]*v[1] >>
VMax(v) == Max2(Abs(v[1]), Max2(Abs(v[2]), Abs(v[3])))
\* Vector with the components scaled down so that the largest is at most m.
Shrink(v, m) == LET f == (VMax(v) \div m) + 1
                IN [i \in 1..3 |-> NearDiv(v[i], f)]
Len2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
NormalScale == 10000
UnitNormal(a, b, c) ==
    LET u == Shrink(VSub(b, a), 15000)
        v == Shrink(VSub(c, a), 15000)
        n == Shrink(Cross(u, v), 20000)
        len == ISqrt(Len2(n))
    IN [i \in 1..3 |-> NearDiv(n[i] * NormalScale, len)]

\* Tool: [j, b, t: reference points relative to the origin, width].
\* Corners in the order j right, j left, b right, b left, t right, t left.
BodyCorners(tool) ==
    LET n == UnitNormal(tool.j, tool.b, tool.t)
        off == [i \in 1..3 |-> NearDiv(tool.width * n[i], 2 * NormalScale)]
    IN << VAdd(tool.j, off), VSub(tool.j, off), VAdd(tool.b, off),
          VSub(tool.b, off), VAdd(tool.t, off), VSub(tool.t, off) >>
Corners(tool, q, p) ==
    LET c == BodyCorners(tool) IN [k \in 1..6 |-> Place(q, p, c[k])]
\* Orientation with a vanishing norm: the tool has not been placed yet.
Unplaced(q) == Norm2(q) = 0

\* Square of the largest distance between corresponding corners, in units of
\* (1/10 mm)^2 so that it fits.
Coarse(v) == [i \in 1..3 |-> NearDiv(v[i], 10)]
MaxShift2(c1, c2) ==
    LET d(k) == Len2(Coarse(VSub(c1[k], c2[k])))
    IN Max2(Max2(Max2(d(1), d(2)), Max2(d(3), d(4))), Max2(d(5), d(6)))
=============================================================================
