------------------------------- MODULE Raster -------------------------------
(***************************************************************************)
(* Which columns and which cell layers a flat surface passes through.      *)
(*                                                                         *)
(* A surface is a polygon <<v1, ..., vn>> of points in units of 0.1 mm (a  *)
(* line is a polygon of two points).  Column (i, j) is the square of side  *)
(* G.c centred on ((i - G.hx) c, (j - G.hy) c).  Rounding the coordinates  *)
(* moves a surface by less than Eps, so the surface is cut with a slightly *)
(* smaller and a slightly larger square: what lies in the smaller one is   *)
(* certainly in the column, what lies outside the larger one certainly is  *)
(* not.                                                                    *)
(***************************************************************************)
EXTENDS Columns, Pose, SequencesExt, TLC

Eps == 4
Between(p, q, ax, v) ==      \* the point of segment pq at coordinate v
    LET d == Abs(q[ax] - p[ax])
        t == IF q[ax] > p[ax] THEN v - p[ax] ELSE p[ax] - v
    IN [k \in 1..3 |-> IF k = ax THEN v
                       ELSE p[k] + NearDiv((q[k] - p[k]) * t, d)]
\* The part of a convex polygon with sg * (coordinate ax - v) >= 0.
Cut(P, ax, v, sg) ==
    IF \A k \in 1..Len(P) : sg * (P[k][ax] - v) >= 0 THEN P
    ELSE IF \A k \in 1..Len(P) : sg * (P[k][ax] - v) < 0 THEN <<>>
    ELSE LET n == Len(P)
             in(p) == sg * (p[ax] - v) >= 0
             piece(p, q) ==
                 IF in(p) THEN (IF in(q) THEN <<p>>
                                ELSE <<p, Between(p, q, ax, v)>>)
                 ELSE IF in(q) THEN <<Between(p, q, ax, v)>> ELSE <<>>
         IN FoldLeft(LAMBDA acc, k : acc \o piece(P[k], P[(k % n) + 1]),
                     <<>>, [k \in 1..n |-> k])
Strip(P, ax, lo, hi) ==
    LET A == TLCEval(Cut(P, ax, lo, 1)) IN TLCEval(Cut(A, ax, hi, -1))
Square(P, x, y, r) == LET A == Strip(P, 1, x - r, x + r) IN Strip(A, 2, y - r, y + r)
Lowest(P, ax) == FoldLeft(LAMBDA m, p : Min2(m, p[ax]), P[1][ax], P)
Highest(P, ax) == FoldLeft(LAMBDA m, p : Max2(m, p[ax]), P[1][ax], P)

\* Layer l is the one of heights in (l - 1, l] cells.
Layer(z, cz) == -((-z) \div cz)
Span(P, ax, h, c) ==         \* indices of the columns it may pass through
    ((2 * Lowest(P, ax) + c - 2 * Eps) \div (2 * c) + h)
        .. ((2 * Highest(P, ax) + c + 2 * Eps) \div (2 * c) + h)
\* (x, y) lies inside the polygon, further than Eps from its edges.
Inside(P, x, y) ==
    LET side(p, q) ==        \* cross product of pq and the point
            (q[1] - p[1]) * (y - p[2]) - (q[2] - p[2]) * (x - p[1])
        far(p, q) == Eps * (Max2(Abs(q[1] - p[1]), Abs(q[2] - p[2])) * 2 + 1)
        n == Len(P)
    IN \/ \A k \in 1..n : side(P[k], P[(k % n) + 1]) > far(P[k], P[(k % n) + 1])
       \/ \A k \in 1..n : side(P[k], P[(k % n) + 1]) < -far(P[k], P[(k % n) + 1])
\* For each column the surface may pass through: <<must, lows, highs>>, the
\* bottoms and tops (in cells) that its cells may have there.
\*
\* The extreme heights of a flat surface within a column are attained at the
\* corners of the column or on the edges of the surface.  Those lying clearly
\* in the column must be covered.
Hits(P, G) ==
    LET half == G.c \div 2
        n == Len(P)
        mid(i, h) == (i - h) * G.c
        is == Span(P, 1, G.hx, G.c)
        js == Span(P, 2, G.hy, G.c)
        outer == TLCEval([i \in is |->
                    Strip(P, 1, mid(i, G.hx) - half - Eps, mid(i, G.hx) + half + Eps)])
        edges == [k \in 1..n |-> <<P[k], P[(k % n) + 1]>>]
        inner == TLCEval([i \in is |-> [k \in 1..n |->
                    Strip(edges[k], 1, mid(i, G.hx) - half + Eps,
                          mid(i, G.hx) + half - Eps)]])
        \* corners: <<lowest, highest>> height around the upper right corner
        corner == TLCEval(
            [c \in {d \in ((Min(is) - 1)..Max(is)) \X ((Min(js) - 1)..Max(js)) :
                       n > 2 /\ Inside(P, mid(d[1], G.hx) + half, mid(d[2], G.hy) + half)}
               |-> LET Q == Square(P, mid(c[1], G.hx) + half, mid(c[2], G.hy) + half, Eps)
                   IN <<Lowest(Q, 3), Highest(Q, 3)>>])
        col(i, j) ==
            LET y == mid(j, G.hy)
                out == Strip(outer[i], 2, y - half - Eps, y + half + Eps)
                chord(k) == Strip(inner[i][k], 2, y - half + Eps, y + half - Eps)
                chords == {Q \in {chord(k) : k \in 1..n} : Q # <<>>}
                cs == {corner[d] : d \in DOMAIN corner \cap ({i - 1, i} \X {j - 1, j})}
            IN IF out = <<>> THEN <<>>
               ELSE LET a == Layer(Lowest(out, 3) - Eps, G.cz) - 1
                        b == Layer(Highest(out, 3) + Eps, G.cz)
                    IN IF chords = {} /\ cs = {}
                       THEN <<FALSE, a..(b - 1), (a + 1)..b>>
                       ELSE LET lo == Min({Lowest(Q, 3) : Q \in chords} \cup {v[2] : v \in cs})
                                hi == Max({Highest(Q, 3) : Q \in chords} \cup {v[1] : v \in cs})
                            IN <<TRUE, a..(Layer(lo + Eps, G.cz) - 1),
                                 Layer(hi - Eps, G.cz)..b>>
        h == TLCEval([c \in is \X js |-> col(c[1], c[2])])
    IN TLCEval([c \in {x \in is \X js : h[x] # <<>>} |-> h[c]])

----------------------------------------------------------------------------
\* The surfaces of a tool, in the order in which they are entered.
Surfaces(G, tool, blade, q, p) ==
    LET cs == Corners(tool, q, p)
        n == UnitNormal(cs[1], cs[2], cs[4])
        off == [k \in 1..3 |-> NearDiv(10 * G.c * n[k], NormalScale)]
        f(k) == Coarse(cs[k])
        b(k) == Coarse(VAdd(cs[k], off))
        \* corners: 1 j right, 2 j left, 3 b right, 4 b left, 5 t right, 6 t left
    IN IF blade
       THEN << <<f(3), f(4), f(2), f(1)>>, <<b(3), b(4), b(2), b(1)>>,
               <<f(5), f(6), f(2), f(1)>>, <<b(5), b(6), b(2), b(1)>> >>
       ELSE << <<f(3), f(4), f(6), f(5)>>, <<f(3), f(4), f(2), f(1)>>,
               <<f(1), f(3), f(5)>>, <<f(2), f(4), f(6)>> >>

\* What a column may hold after the surfaces with these hits.
After(Cs, h) == IF h = <<>> THEN Cs
                ELSE InsertAll(Cs, {v \in h[2] \X h[3] : v[1] < v[2]})
                     \cup (IF h[1] THEN {} ELSE Cs)
ColumnMay(hs, c) ==
    LET at(k) == IF c \in DOMAIN hs[k] THEN hs[k][c] ELSE <<>>
    IN After(After(After(After({{}}, at(1)), at(2)), at(3)), at(4))
=============================================================================
