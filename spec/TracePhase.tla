----------------------------- MODULE TracePhase -----------------------------
(***************************************************************************)
(* Trace validation of single phases and of whole steps.  Each line of the *)
(* trace is one execution of the implementation: the state before, the     *)
(* phases it went through (`plan`) and the state after.  TLC searches for  *)
(* a behaviour of SoilSim from the first to the second; the order in which *)
(* the implementation treated columns, parcels and directions is not       *)
(* recorded and is inferred.                                               *)
(***************************************************************************)
EXTENDS SoilSim, TraceData

VARIABLES n, at      \* trace line, position in its plan
tvars == <<vars, n, at>>

Line == Trace[n]
Plan == Line.plan
Post == Line.post
\* Final states, converted once.
Final == TLCEval([i \in 1..Len(Trace) |->
            LET L == Trace[i]
            IN [t |-> GroundOf(L.X, L.Y, L.post), w |-> WallsOf(L.X, L.Y, L.post),
                s |-> SlabsOf(L.X, L.Y, L.post), r |-> ParcelsOf(L.post)]])

\* Columns an avalanche pass can touch.
Around(S) == S \cup {Add(c, d) : c \in S, d \in Dir4}
Window(L) ==
    LET G == Grid(L.X, L.Y)
        g == TLCEval(GroundOf(L.X, L.Y, L.pre))
    IN IF L.plan = <<"gflow">>
       THEN Around(Candidates(g, L.pre.ia, L.dh)) \cap G
       ELSE IF L.plan = <<"sflow">>
       THEN Around({<<L.pre.r[k][1], L.pre.r[k][2]>> : k \in 1..Len(L.pre.r)})
            \cap G
       ELSE {}

InitAt(i) ==
    LET L == Trace[i]
        P == L.pre
    IN /\ n = i /\ at = 1
       /\ cfg = [X |-> L.X, Y |-> L.Y, hx |-> L.hx, hy |-> L.hy, dh |-> L.dh,
                 buf |-> L.buf, maxit |-> L.maxit,
                 win |-> Window(L)]
       /\ t = GroundOf(L.X, L.Y, P) /\ w = WallsOf(L.X, L.Y, P)
       /\ s = SlabsOf(L.X, L.Y, P) /\ r = ParcelsOf(P)
       /\ eq = P.eq /\ ba = P.ba /\ ra = P.ra /\ ia = P.ia
       /\ ph = "idle" /\ todo = EmptyB /\ cur = None /\ it = 0 /\ lost = 0
TraceInit == \E i \in 1..Len(Trace) : InitAt(i)

Stage == IF at <= Len(Plan) THEN Plan[at] ELSE "end"
Go(A) == A /\ UNCHANGED <<n, at>>
Begin ==
    /\ ph = "idle" /\ cur = None
    /\ \/ Stage = "slide" /\ StartSlide
       \/ Stage = "push" /\ StartPush("idle")
       \/ Stage = "gflow" /\ StartGround("idle")
       \/ Stage = "sflow" /\ StartSlab("idle")
    /\ UNCHANGED <<n, at>>
Finish ==
    /\ ph \in {"slid", "pushed", "gflowed", "sflowed"}
    /\ ph' = "idle" /\ at' = at + 1
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, todo, cur, it, lost, n>>
\* Between two phases of a step: the impact area covers both other areas.
Widen ==
    /\ ph = "idle" /\ Stage = "widen"
    /\ ia' = Union2(ba, ra) /\ at' = at + 1 /\ eq' = FALSE
    /\ UNCHANGED <<cfg, t, w, s, r, ba, ra, ph, todo, cur, it, lost, n>>
SameWorld ==
    /\ t = Final[n].t /\ s = Final[n].s /\ r = Final[n].r
    /\ w = Final[n].w
    /\ ba = Post.ba /\ ra = Post.ra /\ ia = Post.ia
    /\ eq = Post.eq
    /\ (lost > 0) = (Post.warn > 0)
Accept ==
    /\ ph = "idle" /\ Stage = "end"
    /\ SameWorld
    /\ PrintT(<<"OK", Line.id>>)
    /\ TLCSet(1, TLCGet(1) \cup {n})
    /\ ph' = "accepted"
    /\ UNCHANGED <<cfg, t, w, s, r, eq, areas, todo, cur, it, lost, n, at>>

\* One explanation per line is enough (needs one worker and a depth-first queue).
TraceNext == /\ n \notin TLCGet(1)
             /\ \/ Begin \/ Finish \/ Widen \/ Accept
                \/ Go(SlideNext) \/ Go(PushNext)
                \/ Go(GroundNext) \/ Go(SlabNext)
ASSUME TLCSet(1, {})
TraceSpec == TraceInit /\ [][TraceNext]_tvars

----------------------------------------------------------------------------
(* Sound pruning: states that cannot lead to the recorded final state.     *)
LastStage == at = Len(Plan)
\* Parcels already dealt with are final in the last phase of a plan.
Reachable ==
    LET last == LastStage /\ ph \in {"slide", "gflow", "sflow"}
        both == ph = "slide" /\ Plan = <<"slide", "push">>  \* push moves none
    IN last \/ both => WithinBag(r, Final[n].r)
\* Ground only rises in columns that are not waiting, and a column without
\* waiting neighbours is final.
Open == (IF ph = "gflow" THEN todo
         ELSE IF ph = "sflow" THEN {<<e[1], e[2]>> : e \in DOMAIN todo}
         ELSE {e[1] : e \in todo})
        \cup (IF cur = None THEN {} ELSE {cur.c})
Reachable2 ==
    (LastStage /\ ph \in {"gflow", "sflow"}) =>
        LET open == Open
        IN \A c \in cfg.win :
              /\ (ph = "sflow" \/ c \notin open) => t[c] <= Final[n].t[c]
              /\ (c \notin open /\ \A d \in Dir4 : Add(c, d) \notin open) =>
                    t[c] = Final[n].t[c] /\ s[c] = Final[n].s[c]
Reachable3 ==
    (LastStage /\ ph = "push") =>
        LET open == Open
        IN \A c \in DOMAIN t : c \notin open => t[c] <= Final[n].t[c]
Reachable4 ==
    (LastStage /\ ph = "slide") => \A c \in DOMAIN t : t[c] <= Final[n].t[c]
Prune == Reachable /\ Reachable2 /\ Reachable3 /\ Reachable4
=============================================================================
