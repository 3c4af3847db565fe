------------------------------- MODULE MCFiles ------------------------------
(***************************************************************************)
(* All histories of output requests with either tool and of removals of    *)
(* earlier output, from any small folder.                                  *)
(***************************************************************************)
EXTENDS Files, FiniteSets
CONSTANT Max
VARIABLES folder, new
Series == {"terrain", "body_soil", "bucket", "blade"}
Init == /\ folder \in SUBSET {Name(s, k) : s \in Series, k \in 0..1}
        /\ new = {}
Request(blade) ==
    /\ Cardinality(folder) < Max
    /\ new' = Written(folder, blade)
    /\ folder' = folder \cup new'
Remove == /\ \E f \in folder :
                 folder' = folder \ {f}
          /\ new' = {}
Next == Remove \/ \E b \in BOOLEAN : Request(b)
Spec == Init /\ [][Next]_<<folder, new>>
\* A request never touches a file that was there.
NothingOverwritten == [][new' \cap folder = {}]_<<folder, new>>
\* The numbers of one request agree for ground and carried soil, and a folder
\* without gaps stays without gaps.
NoGaps(names, s) == \A k \in 1..5 : Name(s, k) \in names => Name(s, k - 1) \in names
KeepsNoGaps == [][new' # {} =>
    /\ \A s \in {"bucket", "blade"} : NoGaps(folder, s) => NoGaps(folder', s)
    /\ (\A k \in 0..6 : (Name("terrain", k) \in folder)
                         = (Name("body_soil", k) \in folder))
       /\ NoGaps(folder, "terrain")
       => NoGaps(folder', "terrain") /\ NoGaps(folder', "body_soil")]_<<folder, new>>
=============================================================================
