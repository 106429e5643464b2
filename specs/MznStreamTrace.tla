--------------------------- MODULE MznStreamTrace ---------------------------
(* Trace validation: recorded outputs of the toolchain for scripted solver streams. *)
EXTENDS MznStream, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
tvars == <<svars, c, verdict>>
Opt(o) == [o EXCEPT !.needs = ToSet(o.needs)]
TInit == /\ c \in 1..Len(Cases) /\ verdict = "none"
         /\ Start(Opt(Cases[c].opt), Cases[c].lines)
Obs == Cases[c].out
ObsNC == Cases[c].noncan
\* the output so far must be a prefix of what was observed
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
TStep == verdict = "none" /\ Next /\ UNCHANGED <<c, verdict>>
Rej(why) == verdict' = "rejected" /\ PrintT(<<"@", "REJ", c, Len(Cases[c].lines) - Len(in), why>>)
Good == /\ (phase = "done" => out = Obs /\ (ExitOK <=> Cases[c].rc = 0))
        /\ (phase = "failed" => Prefix(out, Obs) /\ Cases[c].rc # 0)
        /\ Cases[c].raw = Cases[c].rawin
        /\ (Cases[c].hasnc => noncan = ObsNC)
TEnd == /\ verdict = "none" /\ phase # "read"
        /\ IF Good THEN verdict' = "accepted" /\ PrintT(<<"@", "ACC", c, nsol>>)
           ELSE Rej(IF phase = "done" /\ out = Obs /\ ~Cases[c].hasnc THEN "exit" ELSE "output")
        /\ UNCHANGED <<svars, c>>
TBad == /\ verdict = "none" /\ phase = "read" /\ ~Prefix(out, Obs)
        /\ Rej("prefix") /\ UNCHANGED <<svars, c>>
TNext == IF phase = "read" /\ ~Prefix(out, Obs) THEN TBad ELSE TStep \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
