------------------------------- MODULE Columns ------------------------------
(***************************************************************************)
(* The tool walls of one column: a set of at most two separated intervals. *)
(* Which of the two slots holds which interval does not matter here.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt

Low(S) == Min({v[1] : v \in S})
High(S) == Max({v[2] : v \in S})
Hull(S) == <<Low(S), High(S)>>
Touches(a, b) == a[1] <= b[2] /\ b[1] <= a[2]
Covers(a, b) == a[1] <= b[1] /\ b[2] <= a[2]
Gap(a, b) == IF a[1] > b[2] THEN a[1] - b[2] ELSE b[1] - a[2]
\* The columns that may result from adding interval v to the walls C.
Insert(C, v) ==
    IF \E a \in C : Covers(a, v) THEN {C}
    ELSE LET T == {a \in C : Touches(a, v)}
         IN IF T # {} THEN {(C \ T) \cup {Hull(T \cup {v})}}
            ELSE IF Cardinality(C) < 2 THEN {C \cup {v}}
            ELSE {(C \ {a}) \cup {Hull({a, v})} :
                     a \in {x \in C : \A y \in C : Gap(x, v) <= Gap(y, v)}}
InsertAll(Cs, V) == UNION {UNION {Insert(C, v) : C \in Cs} : v \in V}

Points(C) == UNION {a[1]..a[2] : a \in C}
Separated(C) == \A a, b \in C : a # b => ~Touches(a, b)
Proper(C) == /\ Cardinality(C) <= 2 /\ Separated(C)
             /\ \A a \in C : a[1] < a[2]
=============================================================================
