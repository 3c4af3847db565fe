-------------------------------- MODULE Step --------------------------------
(***************************************************************************)
(* The control of one executed step: the order of its phases and when the  *)
(* avalanche passes stop.  What a phase does is SoilSim's (Raster, Carry,  *)
(* Displace, Relax) business; here the world after a phase is a given      *)
(* function, so that only the sequence matters.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES
    pc,     \* the phase to come: place, carry, displace, area, ground, slab
    it,     \* avalanche passes begun
    eq,     \* the equilibrium flag
    limit,  \* the maximum number of passes
    past    \* the phases done so far

cvars == <<pc, it, eq, limit, past>>

\* A phase is done and leaves the flag e.
Do(p, e) == pc = p /\ past' = Append(past, p) /\ eq' = e
Again == IF ~eq' /\ it' < limit THEN "area" ELSE "end"

Place(e) == Do("place", e) /\ pc' = "carry" /\ UNCHANGED <<it, limit>>
Carry(e) == Do("carry", e) /\ pc' = "displace" /\ UNCHANGED <<it, limit>>
\* Nothing is known about the equilibrium of the new situation.
Displace == Do("displace", FALSE) /\ UNCHANGED <<it, limit>> /\ pc' = Again
Area(e) == Do("area", e) /\ it' = it + 1 /\ pc' = "ground" /\ UNCHANGED limit
Ground(e) == Do("ground", e) /\ pc' = "slab" /\ UNCHANGED <<it, limit>>
Slab(e) == Do("slab", e) /\ UNCHANGED <<it, limit>> /\ pc' = Again

StartStep(m) == /\ pc = "place" /\ it = 0 /\ limit = m /\ past = <<>>
                /\ eq \in BOOLEAN

----------------------------------------------------------------------------
\* Model: any flag may come out of a phase that sets it.
Init == \E m \in 0..4 : StartStep(m)
Next == \/ Place(eq) \/ Carry(eq) \/ Displace \/ Area(eq)
        \/ \E e \in BOOLEAN : Ground(e)
        \/ Slab(eq) \/ Slab(FALSE)
        \/ pc = "end" /\ UNCHANGED cvars
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)

Count(p) == Len(SelectSeq(past, LAMBDA x : x = p))
Bounded == it <= limit /\ Count("ground") <= limit
\* Each pass is complete, and there is no pass after one that found nothing.
Shape ==
    pc = "end" =>
        /\ SubSeq(past, 1, 3) = <<"place", "carry", "displace">>
        /\ Len(past) = 3 + 3 * it
        /\ \A k \in 1..it :
              SubSeq(past, 1 + 3 * k, 3 + 3 * k) = <<"area", "ground", "slab">>
        /\ (it < limit) => eq
        /\ (it = 0) => ~eq
Ends == <>(pc = "end")
=============================================================================
