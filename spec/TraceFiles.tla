----------------------------- MODULE TraceFiles -----------------------------
(***************************************************************************)
(* One recorded output request: the folder before and after it, with the   *)
(* content of the new files, and the state that was simulated.             *)
(***************************************************************************)
EXTENDS Files, Pose, TraceData
VARIABLES n, bad

Names(list) == {f.name : f \in {list[k] : k \in 1..Len(list)}}
Contents(list) == {<<f.name, f.hash>> : f \in {list[k] : k \in 1..Len(list)}}
File(list, name) == CHOOSE f \in {list[k] : k \in 1..Len(list)} : f.name = name
Near(a, b, e) == Abs(a - b) <= e
\* Coordinates of a column and a height, in units of 0.1 mm.
PosX(L, i) == (i - L.hx) * (L.cxy \div 10)
PosY(L, j) == (j - L.hy) * (L.cxy \div 10)
PosZ(L, h) == h * (L.cz \div 10)
Low(L) == (1 - L.hz) * (L.cz \div 10)        \* centre of the lowest cell

AtColumn(L, r, c) == Near(r[1], PosX(L, c[1]), 1) /\ Near(r[2], PosY(L, c[2]), 1)
ColumnOf(L, r) == LET d == L.cxy \div 10
                  IN <<RoundDiv(r[1], d) + L.hx, RoundDiv(r[2], d) + L.hy>>

GroundRight(L, rows) ==
    LET t == TLCEval(GroundOf(L.X, L.Y, L.st))
        cs == {ColumnOf(L, rows[k]) : k \in 1..Len(rows)}
    IN /\ Len(rows) = L.X * L.Y
       /\ cs = Grid(L.X, L.Y)
       /\ \A k \in 1..Len(rows) :
             LET c == ColumnOf(L, rows[k])
             IN AtColumn(L, rows[k], c) /\ Near(rows[k][3], PosZ(L, t[c]), 1)
CarriedRight(L, rows) ==
    LET s == L.st.s
    IN IF s = <<>>
       THEN /\ Len(rows) = 1
            /\ AtColumn(L, rows[1], <<0, 0>>) /\ Near(rows[1][3], Low(L), 1)
       ELSE /\ Len(rows) = Len(s)
            /\ \A m \in 1..Len(s) : \E k \in 1..Len(rows) :
                   /\ AtColumn(L, rows[k], <<s[m][1], s[m][2]>>)
                   /\ Near(rows[k][3], PosZ(L, s[m][5]), 1)
            /\ \A k \in 1..Len(rows) : \E m \in 1..Len(s) :
                   /\ AtColumn(L, rows[k], <<s[m][1], s[m][2]>>)
                   /\ Near(rows[k][3], PosZ(L, s[m][5]), 1)
\* Sides, back and base of a bucket; base and front of a blade.
OutlineOf(blade, c) ==
    LET jr == c[1]
        jl == c[2]
        br == c[3]
        bl == c[4]
        tr == c[5]
        tl == c[6]
    IN IF blade THEN <<br, bl, jl, jr, jr, jl, tl, tr>>
       ELSE <<br, tr, jr, jr, jl, bl, br, br, tr, tl, bl, bl, tl, jl>>
OutlineRight(L, rows) ==
    LET want == OutlineOf(L.blade, Corners(L.tool, L.q, L.p))
    IN /\ Len(rows) = Len(want)
       /\ \A k \in 1..Len(want) : \A a \in 1..3 :
              Near(10 * rows[k][a], want[k][a], 25)

Wrong(L) ==
    LET before == Names(L.pre)
        ws == Written(before, L.blade)
        after == Names(L.post)
        good(f) == f.head = "x,y,z" /\ ~f.malformed
        rows(name) == File(L.post, name).rows
        new(name) == name \in after /\ name \notin before /\ good(File(L.post, name))
    IN {w \in {"names", "kept", "ground", "carried", "outline"} :
          ~CASE w = "names" -> after = before \cup ws
             [] w = "kept" -> Contents(L.pre) \subseteq Contents(L.post)
             [] w = "ground" -> /\ new(Ground(before))
                                /\ GroundRight(L, rows(Ground(before)))
             [] w = "carried" -> /\ new(Carried(before))
                                 /\ CarriedRight(L, rows(Carried(before)))
             [] w = "outline" -> /\ new(Outline(before, L.blade))
                                 /\ OutlineRight(L, rows(Outline(before, L.blade)))}
Init == /\ n \in 1..Len(Trace)
        /\ bad = Wrong(Trace[n])
        /\ IF bad = {} THEN PrintT(<<"OK", Trace[n].id>>)
           ELSE PrintT(<<"BAD", Trace[n].id, bad>>)
Spec == Init /\ [][FALSE]_<<n, bad>>
=============================================================================
