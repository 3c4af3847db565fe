-------------------------------- MODULE Carry -------------------------------
(***************************************************************************)
(* The soil carried by the tool follows it.  A parcel is anchored at a     *)
(* point of the tool frame; when the tool takes a new pose, the parcel     *)
(* goes to the wall nearest to the new place of its anchor.                *)
(*                                                                         *)
(* K is the constant part: [hx, hy, cxy, cz, q0, p0, q1, p1], lengths in   *)
(* length units, old pose (q0, p0), new pose (q1, p1).  eps is the         *)
(* distance (length units) below which the comparisons of the              *)
(* implementation, done in floating point, may go either way.              *)
(***************************************************************************)
EXTENDS Pose

\* Nearest column index of coordinate v.
Nearest(v, cell, half, eps) ==
    {half + NearDiv(v - eps, cell), half + NearDiv(v + eps, cell)}
Signs(d, eps) == IF d > eps THEN {1} ELSE IF d < -eps THEN {-1} ELSE {1, -1}

\* The nine columns around the new place in the order of preference.
ScanX(sx, sy) == << <<0, 0>>, <<sx, 0>>, <<sx, sy>>, <<0, sy>>, <<sx, -sy>>,
                    <<0, -sy>>, <<-sx, sy>>, <<-sx, 0>>, <<-sx, -sy>> >>
ScanY(sx, sy) == << <<0, 0>>, <<0, sy>>, <<sx, sy>>, <<sx, 0>>, <<-sx, sy>>,
                    <<-sx, 0>>, <<sx, -sy>>, <<0, -sy>>, <<-sx, -sy>> >>
Scans(dx, dy, eps) ==
    UNION { (IF Abs(dx) > Abs(dy) - eps THEN {ScanX(sx, sy)} ELSE {})
            \cup (IF Abs(dy) > Abs(dx) - eps THEN {ScanY(sx, sy)} ELSE {})
            : <<sx, sy>> \in Signs(dx, eps) \X Signs(dy, eps)}

\* The walls met along a scan, slot 1 before slot 2, with their distance to z.
RECURSIVE Met(_, _, _, _, _, _)
Met(w, c, scan, i, z, cz) ==
    IF i > Len(scan) THEN <<>>
    ELSE LET q == Add(c, scan[i])
             at(k) == IF q \in DOMAIN w /\ Has(w[q][k])
                      THEN << [c |-> q, k |-> k, top |-> Hi(w[q][k]),
                               d |-> Abs(z - Hi(w[q][k]) * cz)] >>
                      ELSE <<>>
         IN at(1) \o at(2) \o Met(w, c, scan, i + 1, z, cz)

\* Targets along a scan: the first wall within one cell height; if there is
\* none, the closest one, the first such in case of a tie.
Targets(m, cz, eps) ==
    LET sure == {i \in 1..Len(m) : m[i].d < cz - eps}
        maybe == {i \in 1..Len(m) : m[i].d <= cz + eps}
        first(S) == CHOOSE i \in S : \A j \in S : i <= j
        near == IF sure = {} THEN maybe
                ELSE {i \in maybe : i <= first(sure)}
        far == IF sure # {} \/ m = <<>> THEN {}
               ELSE LET d0 == CHOOSE d \in {m[i].d : i \in 1..Len(m)} :
                                  \A i \in 1..Len(m) : d <= m[i].d
                        close == {i \in 1..Len(m) : m[i].d <= d0 + eps}
                    IN {i \in close : \A j \in close :
                           m[j].top = m[i].top => i <= j}
    IN near \cup far

None3 == [c |-> <<-1, -1>>, k |-> 0, d |-> 0]
\* Places a parcel with anchor v (tool frame) may take: slot 0 is the ground.
Landings(w, K, v, eps) ==
    LET new == Place(K.q1, K.p1, v)
        old == IF Unplaced(K.q0) THEN new ELSE Place(K.q0, K.p0, v)
        dx == new[1] - old[1]
        dy == new[2] - old[2]
    IN UNION {UNION {
          LET m == Met(w, <<cx, cy>>, scan, 1, new[3], K.cz)
          IN IF m = <<>> THEN {[c |-> <<cx, cy>>, k |-> 0]}
             ELSE {[c |-> m[i].c, k |-> m[i].k] : i \in Targets(m, K.cz, eps)}
          : scan \in Scans(dx, dy, eps)}
          : <<cx, cy>> \in Nearest(new[1], K.cxy, K.hx, eps)
                           \X Nearest(new[2], K.cxy, K.hy, eps)}

\* Anchor of a parcel created on wall k of column c with the tool at (q, p):
\* the top of the wall in the tool frame.
NewAnchor(w, K, c, k, q, p) ==
    ToFrame(q, p, << (c[1] - K.hx) * K.cxy, (c[2] - K.hy) * K.cxy,
                     Hi(w[c][k]) * K.cz >>)
Close(u, v, eps) == \A i \in 1..3 : Abs(u[i] - v[i]) <= eps
=============================================================================
