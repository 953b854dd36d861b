--------------------------- MODULE SingleShotOptions ---------------------------
(* The two ways of using analog syndromes exclude each other: a simulator   *)
(* asked for both is refused, any other choice is accepted.                 *)
EXTENDS Naturals, Sequences, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
vars == <<c, bad>>
C == Cases[c]
Wrong == IF C.tg /\ C.info THEN IF C.status = "ok" THEN "ContradictoryOptionsRefused" ELSE ""
         ELSE IF C.info THEN "" ELSE IF C.status # "ok" THEN "NoException" ELSE ""
Init == c \in 1..Len(Cases) /\ bad = Wrong
Next == UNCHANGED vars
NoException == bad # "NoException"
ContradictoryOptionsRefused == bad # "ContradictoryOptionsRefused"
=============================================================================
