--------------------------- MODULE MznDataCheck ---------------------------
(* Every recorded run has the outcome that MznData gives for its data. *)
EXTENDS MznData, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Res(x) == IF x.obs.err THEN Err ELSE Ok(x.obs.vals)
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET o == Outcome2(Cases[c])
           IN /\ PrintT(<<"@", IF o = Res(Cases[c]) THEN "ACC" ELSE "REJ", c, IF o = Err THEN 0 ELSE 1>>)
              /\ (o = Res(Cases[c]) \/ PrintT(<<"case", c, o>>))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
