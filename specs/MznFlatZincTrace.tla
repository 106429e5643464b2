------------------------- MODULE MznFlatZincTrace -------------------------
(* Every FlatZinc file of the cases is accepted by the reader of MznFlatZinc. *)
EXTENDS MznFlatZinc, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, st
vars == <<c, i, st>>
Init == c \in 1..Len(Cases) /\ i = 0 /\ st = Fresh
Read == /\ i < Len(Cases[c]) /\ st.err = "" /\ i' = i + 1 /\ st' = Take(st, Cases[c][i + 1]) /\ UNCHANGED c
Stop == /\ i # 100000 /\ (i = Len(Cases[c]) \/ st.err # "") /\ i' = 100000 /\ UNCHANGED <<c, st>>
        /\ LET r == Done(st) IN PrintT(<<"@", IF r.err = "" THEN "ACC" ELSE "REJ", c, i, r.err>>)
Next == Read \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
