---------------------------- MODULE MznParCheck ----------------------------
(* Checks recorded evaluations against MznPar: obs is [ok |-> TRUE, v |-> value] or [ok |-> FALSE, m |-> message]. *)
EXTENDS MznPar, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE c
Empty == [x \in {} |-> 0]
Same(v, o, t) == CASE t = "S" -> v = {o[i] : i \in DOMAIN o}
                   [] t \in {"i", "b", "s", "f"} -> v = o
                   [] t = "AS" -> Len(v.a) = Len(o) /\ \A i \in DOMAIN o : v.a[i] = {o[i][j] : j \in DOMAIN o[i]}
                   [] OTHER -> v.a = o
Judge(x) == LET r == Ev(x.e, Empty)
            IN  IF x.obs.ok THEN r.must = {} /\ Same(r.v, x.obs.v, x.t)
                ELSE x.obs.m \in r.must \cup r.may
VARIABLE done
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ IF Judge(Cases[c]) THEN PrintT(<<"@", "ACC", c>>)
           ELSE PrintT(<<"@", "REJ", c>>) /\ PrintT(<<"case", c, Ev(Cases[c].e, Empty)>>)
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
