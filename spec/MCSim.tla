-------------------------------- MODULE MCSim -------------------------------
(***************************************************************************)
(* Whole steps of SoilSim on small worlds, every order of treatment.       *)
(* The tool has just been placed and the carried soil been relocated: two  *)
(* side-by-side columns and a third one are arranged in every way the      *)
(* bounds allow (soil squeezed into walls, walls buried in the ground),    *)
(* everything else is flat ground.                                         *)
(***************************************************************************)
EXTENDS SoilSim, SequencesExt
CONSTANTS Size,      \* columns per side (odd)
          Dh, Passes,
          Family,    \* which arrangements
          Pick, Of   \* of the arrangements, those with number % Of = Pick

VARIABLE m0          \* the soil there was
mcvars == <<vars, m0>>

Half2 == (Size - 1) \div 2
A == <<Half2, Half2>>
B == <<Half2 + 1, Half2>>
G == Grid(Size, Size)

Slab(wall, h) == IF h = 0 THEN None ELSE <<wall[2], wall[2] + h>>
Bare(h) == [t |-> h, w |-> <<None, None>>, s |-> <<None, None>>]
One(k, lo, g, h) ==
    LET a == <<lo, lo + 1>>
    IN [t |-> g, w |-> IF k = 1 THEN <<a, None>> ELSE <<None, a>>,
        s |-> IF k = 1 THEN <<Slab(a, h), None>> ELSE <<None, Slab(a, h)>>]
Two(k, lo, g, gap, h, u) ==
    LET a == <<lo, lo + 1>>
        b == <<lo + 1 + gap, lo + 2 + gap>>
    IN [t |-> g, w |-> IF k = 1 THEN <<a, b>> ELSE <<b, a>>,
        s |-> IF k = 1 THEN <<Slab(a, h), Slab(b, u)>>
              ELSE <<Slab(b, u), Slab(a, h)>>]
\* bare: ground only, away from walls.
BareCols == {Bare(h) : h \in 0..3}
WallCols == {One(1, lo, g, h) : lo \in 0..1, g \in {0, 1, 3}, h \in {0, 2}}
GapCols == {Two(2, 0, g, gap, h, u) : g \in {0, 2}, gap \in 1..2,
                                      h \in {0, 1, 3, 4}, u \in {0, 2}}
Pairs == CASE Family = "bare" -> (BareCols \cup {Bare(5), Bare(8)}) \X BareCols
           [] Family = "wall" -> (WallCols \cup GapCols) \X (BareCols \cup WallCols)
           [] Family = "gap" -> GapCols \X {Bare(0), Bare(2)}
           [] Family = "gaps" -> GapCols \X GapCols
PairSeq == TLCEval(SetToSeq(Pairs))

Ledger(c, col) ==
    LET one(k) == IF ~Has(col.s[k]) THEN <<>>
                  ELSE LET h == Hi(col.s[k]) - Lo(col.s[k])
                       IN IF h > 2 THEN << <<c[1], c[2], k, 2>>, <<c[1], c[2], k, h - 2>> >>
                          ELSE << <<c[1], c[2], k, h>> >>
    IN one(1) \o one(2)
InitWith(pr) ==
    /\ cfg = [X |-> Size, Y |-> Size, hx |-> Half2, hy |-> Half2, dh |-> Dh,
              buf |-> 2, maxit |-> Passes, win |-> {}]
    /\ t = [c \in G |-> IF c = A THEN pr[1].t ELSE IF c = B THEN pr[2].t ELSE 0]
    /\ w = [c \in G |-> IF c = A THEN pr[1].w ELSE IF c = B THEN pr[2].w
                        ELSE <<None, None>>]
    /\ s = [c \in G |-> IF c = A THEN pr[1].s ELSE IF c = B THEN pr[2].s
                        ELSE <<None, None>>]
    /\ r = FoldLeft(AddB, EmptyB, Ledger(A, pr[1]) \o Ledger(B, pr[2]))
    /\ eq \in {FALSE}
    /\ ba = <<1, Size - 1, 1, Size - 1>> /\ ra = ba /\ ia = ba
    /\ ph = "idle" /\ todo = EmptyB /\ cur = None /\ it = 0 /\ lost = 0
    /\ m0 = Mass(t, s)
Init == \E i \in {i \in 1..Len(PairSeq) : i % Of = Pick} : InitWith(PairSeq[i])

----------------------------------------------------------------------------
\* The control of a step (see Step).
Widen == /\ ph \in {"pushed", "sflowed"}
         /\ it < Passes /\ (ph = "sflowed" => ~eq)
         /\ ph' = "wide" /\ it' = it + 1 /\ ia' = Union2(ba, ra)
         /\ UNCHANGED <<cfg, t, w, s, r, eq, ba, ra, todo, cur, lost>>
Finish == /\ ph = "sflowed" /\ (eq \/ it = Passes)
          /\ ph' = "end"
          /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, todo, cur, it, lost>>
Next == /\ UNCHANGED m0
        /\ \/ StartSlide \/ SlideNext
           \/ StartPush("slid") \/ PushNext
           \/ Widen
           \/ StartGround("wide") \/ GroundNext
           \/ StartSlab("gflowed") \/ SlabNext
           \/ Finish
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

----------------------------------------------------------------------------
Waiting == IF ph \in {"slide", "sflow"} THEN todo ELSE EmptyB
InHand == IF cur = None THEN 0
          ELSE IF ph = "slide" THEN cur.left
          ELSE IF ph = "push" THEN cur.left - (t[cur.c] - Lo(w[cur.c][cur.k]))
          ELSE 0
\* C01.
SoilKept == Mass(t, s) + InHand + lost = m0
Resting == ph \in {"slid", "pushed", "gflowed", "sflowed", "end"}
\* C02.
LedgerKept == Resting => LedgerOK(s, r)
\* C03.
Clear == /\ ph \in {"slid", "pushed", "wide", "gflowed", "sflowed", "end"} =>
               SlabsRest(w, s) /\ SlabsClear(w, s)
         /\ ph \in {"pushed", "wide", "gflowed", "sflowed", "end"} =>
               WellFormed(t, w, s)
\* C06: the flag is right when the step ends.
FlagRight == (ph = "end" /\ eq) =>
    GroundStable(t, w, s, ia, Dh) /\ SlabsStable(t, w, s, r, Dh)
FlagNeeded == (ph = "end" /\ ~eq) => it = Passes
\* The regions stay within the grid.
Inside(a) == a[1] >= 1 /\ a[2] <= Size - 1 /\ a[3] >= 1 /\ a[4] <= Size - 1
RegionsInside == Inside(ba) /\ Inside(ra) /\ Inside(ia)
\* Every step ends, and ends well.
Ends == <>(ph = "end")
\* For worlds without walls: equilibrium is reached.
Calm == ph = "end" => eq
=============================================================================
