------------------------------ MODULE SoilSim -------------------------------
(***************************************************************************)
(* The phases of one simulation step as a transition system.  Wherever the *)
(* implementation picks something at random, the action is nondeterministic*)
(* (the order of columns, of parcels and of directions).                   *)
(*                                                                         *)
(*   "slide"  squeezed parcels leave the columns where a wall hit them     *)
(*   "push"   ground inside walls is spread around                         *)
(*   "gflow"  one pass of ground avalanches over the impact area           *)
(*   "sflow"  one pass of avalanches of the carried parcels                *)
(*   "idle"   nothing going on                                             *)
(*                                                                         *)
(* r holds the parcels that are not waiting (todo) and not being treated   *)
(* (cur); the whole ledger is the sum of the three.                        *)
(***************************************************************************)
EXTENDS Relax, Displace

VARIABLES
    cfg,    \* [X, Y, hx, hy, dh, buf, maxit]: the fixed parameters
    t, w, s, r,
    eq,     \* the published equilibrium flag
    ba, ra, ia,  \* body area, relaxed area, impact area
    ph,     \* phase
    todo,   \* gflow: set of columns; push: set of <<column, slot>>;
            \* slide, sflow: bag of parcels
    cur,    \* what is being treated, or None
    it,     \* relaxation passes done in this step
    lost    \* soil removed with a warning in this step

world == <<t, w, s, r>>
areas == <<ba, ra, ia>>
vars == <<cfg, t, w, s, r, eq, ba, ra, ia, ph, todo, cur, it, lost>>

Near(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2]) <= 2

(* Columns further than 2 apart do not interact in an avalanche pass (each *)
(* treatment reads and writes only the column and its four neighbours), so *)
(* it is enough to explore the orders inside one cluster at a time.        *)
RECURSIVE Grow(_, _)
Grow(front, all) ==
    LET more == {x \in all \ front : \E y \in front : Near(x, y)}
    IN IF more = {} THEN front ELSE Grow(front \cup more, all)
Cluster(all) == Grow({CHOOSE x \in all : TRUE}, all)

----------------------------------------------------------------------------
\* Squeezed parcels.
StartSlide ==
    /\ ph = "idle" /\ cur = None
    /\ ph' = "slide" /\ todo' = r /\ r' = EmptyB
    /\ UNCHANGED <<cfg, t, w, s, eq, areas, cur, it, lost>>

SlideQuiet(e) == Squeezed(w, s, e) = 0
\* A parcel that is not squeezed now will not be squeezed later in the phase
\* unless soil lands on its slab, which never raises it into the wall above.
SlideRest ==
    /\ ph = "slide" /\ cur = None
    /\ \E e \in DOMAIN todo : SlideQuiet(e)
    /\ LET e == CHOOSE e \in DOMAIN todo : SlideQuiet(e)
       IN r' = AddB(r, e) /\ todo' = DelB(todo, e)
    /\ UNCHANGED <<cfg, t, w, s, eq, areas, ph, cur, it, lost>>
SlidePick ==
    /\ ph = "slide" /\ cur = None
    /\ \A e \in DOMAIN todo : ~SlideQuiet(e)
    /\ \E e \in DOMAIN todo :
          LET a == Squeezed(w, s, e)
              c == <<e[1], e[2]>>
          IN /\ todo' = DelB(todo, e)
             /\ s' = Withdraw(s, c, e[3], a)
             /\ r' = IF e[4] > a THEN AddB(r, <<e[1], e[2], e[3], e[4] - a>>)
                     ELSE r
             /\ cur' = [c |-> c, k |-> e[3], left |-> a, D |-> Dir8,
                        maxh |-> Lo(w[c][Other(e[3])])]
    /\ UNCHANGED <<cfg, t, w, eq, areas, ph, it, lost>>
SlideWalk(d) ==
    /\ ph = "slide" /\ cur # None /\ cur.left > 0 /\ d \in cur.D
    /\ LET o == WalkFrom(t, w, s, r, cur.c, d, 1, cur.c, cur.k, cur.maxh,
                         cur.left)
       IN /\ t' = o.t /\ s' = o.s /\ r' = o.r
          /\ cur' = [cur EXCEPT !.left = o.left, !.D = @ \ {d}]
    /\ UNCHANGED <<cfg, w, eq, areas, ph, todo, it, lost>>
SlideEnd ==
    /\ ph = "slide" /\ cur # None /\ (cur.left = 0 \/ cur.D = {})
    /\ lost' = lost + cur.left     \* removed, with a warning
    /\ cur' = None
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, ph, todo, it>>
SlideDone ==
    /\ ph = "slide" /\ cur = None /\ todo = EmptyB
    /\ ph' = "slid"
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, todo, cur, it, lost>>
SlideNext == SlideRest \/ SlidePick \/ SlideEnd \/ SlideDone
             \/ \E d \in Dir8 : SlideWalk(d)

----------------------------------------------------------------------------
\* Ground inside walls.
StartPush(from) ==
    /\ ph = from /\ cur = None
    /\ ph' = "push" /\ todo' = Buried(t, w, ba)
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, cur, it, lost>>
PushSkip ==
    /\ ph = "push" /\ cur = None
    /\ \E e \in todo : t[e[1]] <= Lo(w[e[1]][e[2]])
    /\ todo' = {e \in todo : t[e[1]] > Lo(w[e[1]][e[2]])}
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, ph, cur, it, lost>>
PushPick ==
    /\ ph = "push" /\ cur = None
    /\ \A e \in todo : t[e[1]] > Lo(w[e[1]][e[2]])
    /\ \E e \in todo :
          /\ todo' = todo \ {e}
          /\ cur' = [c |-> e[1], k |-> e[2], n |-> 1, D |-> Dir8,
                     left |-> t[e[1]] - Lo(w[e[1]][e[2]])]
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, ph, it, lost>>
PushPut(d) ==
    /\ ph = "push" /\ cur # None /\ cur.left > 0
    /\ d \in OpenDirs(t, w, cur.c, cur.n, cur.D)
    /\ LET q == Step2(cur.c, d, cur.n)
           a == RingAmount(t, w, q, cur.left)
       IN /\ t' = [t EXCEPT ![q] = @ + a]
          /\ cur' = [cur EXCEPT !.left = @ - a, !.D = @ \ {d}]
    /\ UNCHANGED <<cfg, w, s, r, eq, areas, ph, todo, it, lost>>
PushFarther ==
    /\ ph = "push" /\ cur # None /\ cur.left > 0
    /\ OpenDirs(t, w, cur.c, cur.n, cur.D) = {}
    /\ cur.n < cfg.X + cfg.Y       \* beyond the grid there is nothing
    /\ cur' = [cur EXCEPT !.n = @ + 1, !.D = Dir8]
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, ph, todo, it, lost>>
PushEnd ==
    /\ ph = "push" /\ cur # None /\ cur.left = 0
    /\ t' = [t EXCEPT ![cur.c] = Lo(w[cur.c][cur.k])]
    /\ cur' = None
    /\ UNCHANGED <<cfg, w, s, r, eq, areas, ph, todo, it, lost>>
PushDone ==
    /\ ph = "push" /\ cur = None /\ todo = {}
    /\ ph' = "pushed" /\ todo' = EmptyB
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, cur, it, lost>>
PushNext == PushSkip \/ PushPick \/ PushFarther \/ PushEnd \/ PushDone
            \/ \E d \in Dir8 : PushPut(d)

----------------------------------------------------------------------------
\* One pass of ground avalanches.
StartGround(from) ==
    /\ ph = from /\ cur = None
    /\ ph' = "gflow" /\ eq' = TRUE
    /\ todo' = Candidates(t, ia, cfg.dh)
    /\ ra' = IF todo' = {} THEN ra
             ELSE RelaxArea(todo', cfg.buf, cfg.hx, cfg.hy)
    /\ UNCHANGED <<cfg, t, w, s, r, ba, ia, cur, it, lost>>
GroundPick ==
    /\ ph = "gflow" /\ cur = None /\ todo # {}
    /\ \E c \in Cluster(todo) :
          /\ todo' = todo \ {c}
          /\ cur' = [c |-> c, D |-> Dir4]
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, ph, it, lost>>
GroundFall(d) ==
    /\ ph = "gflow" /\ cur # None
    /\ d \in UnstableDirs(t, w, s, cur.c, cur.D, cfg.dh)
    /\ LET q == Add(cur.c, d)
           f == GroundFlow(t, w, s, t[cur.c], q, cfg.dh)
           a == GroundAmount(f, t[cur.c], cfg.dh)
       IN IF f.k = 0
          THEN /\ t' = [t EXCEPT ![cur.c] = @ - a, ![q] = @ + a]
               /\ UNCHANGED <<s, r>>
          ELSE /\ t' = [t EXCEPT ![cur.c] = @ - a]
               /\ s' = Deposit(w, s, q, f.k, a)
               /\ r' = AddB(r, <<q[1], q[2], f.k, a>>)
    /\ eq' = FALSE
    /\ cur' = [cur EXCEPT !.D = @ \ {d}]
    /\ UNCHANGED <<cfg, w, areas, ph, todo, it, lost>>
GroundEnd ==
    /\ ph = "gflow" /\ cur # None
    /\ UnstableDirs(t, w, s, cur.c, cur.D, cfg.dh) = {}
    /\ cur' = None
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, ph, todo, it, lost>>
GroundDone ==
    /\ ph = "gflow" /\ cur = None /\ todo = {}
    /\ ph' = "gflowed" /\ todo' = EmptyB
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, cur, it, lost>>
GroundNext == GroundPick \/ GroundEnd \/ GroundDone
              \/ \E d \in Dir4 : GroundFall(d)

----------------------------------------------------------------------------
\* One pass of avalanches of the parcels that exist when it starts.
StartSlab(from) ==
    /\ ph = from /\ cur = None
    /\ ph' = "sflow" /\ todo' = r /\ r' = EmptyB
    /\ UNCHANGED <<cfg, t, w, s, eq, areas, cur, it, lost>>
ParcelCluster(b) == LET cs == Cluster({<<e[1], e[2]>> : e \in DOMAIN b})
                    IN {e \in DOMAIN b : <<e[1], e[2]>> \in cs}
SlabPick ==
    /\ ph = "sflow" /\ cur = None /\ todo # EmptyB
    /\ \E e \in ParcelCluster(todo) :
          /\ todo' = DelB(todo, e)
          /\ cur' = [c |-> <<e[1], e[2]>>, k |-> e[3], h |-> e[4],
                     D |-> Dir4]
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, ph, it, lost>>
SlabFall(d) ==
    /\ ph = "sflow" /\ cur # None /\ cur.h > 0
    /\ d \in SlabUnstableDirs(t, w, s, cur.c, cur.k, cur.D, cfg.dh)
    /\ LET q == Add(cur.c, d)
           S == Hi(s[cur.c][cur.k])
           f == SlabFlow(t, w, s, S, Hi(w[cur.c][cur.k]), q, cfg.dh)
           a == SlabAmount(f, S, cur.h, cfg.dh)
           s1 == Withdraw(s, cur.c, cur.k, a)
       IN /\ IF a = 0        \* no room below the wall: nothing moves
             THEN UNCHANGED <<t, s, r>>
             ELSE IF f.k = 0
             THEN /\ t' = [t EXCEPT ![q] = @ + a]
                  /\ s' = s1 /\ UNCHANGED r
             ELSE /\ s' = Deposit(w, s1, q, f.k, a)
                  /\ r' = AddB(r, <<q[1], q[2], f.k, a>>)
                  /\ UNCHANGED t
          /\ cur' = [cur EXCEPT !.D = @ \ {d}, !.h = @ - a]
    /\ eq' = FALSE
    /\ UNCHANGED <<cfg, w, areas, ph, todo, it, lost>>
SlabEnd ==
    /\ ph = "sflow" /\ cur # None
    /\ \/ cur.h = 0
       \/ SlabUnstableDirs(t, w, s, cur.c, cur.k, cur.D, cfg.dh) = {}
    /\ r' = IF cur.h > 0 THEN AddB(r, <<cur.c[1], cur.c[2], cur.k, cur.h>>)
            ELSE r
    /\ cur' = None
    /\ UNCHANGED <<cfg, t, w, s, eq, areas, ph, todo, it, lost>>
SlabDone ==
    /\ ph = "sflow" /\ cur = None /\ todo = EmptyB
    /\ ph' = "sflowed"
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, todo, cur, it, lost>>
SlabNext == SlabPick \/ SlabEnd \/ SlabDone \/ \E d \in Dir4 : SlabFall(d)
=============================================================================
