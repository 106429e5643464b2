---------------------------- MODULE MznSolveTrace ----------------------------
(* Trace validation of recorded toolchain runs against MznSolve.  The input file holds many
   independent runs; every initial state picks one, so TLC checks them in parallel.  A run that no
   specified behaviour explains ends in an explicit rejected state naming the first bad event. *)
EXTENDS MznSolve, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, verdict
tvars == <<vars, c, l, verdict>>

TInit == /\ c \in 1..Len(Cases)
         /\ l = 0 /\ verdict = "none"
         /\ model = <<>> /\ sols = {} /\ todo = {} /\ best = <<>> /\ status = "run"

Ev == Cases[c].ev
\* decode an observed assignment with the declared types of the outputs
Obs(e) == [n \in ToSet(model.out) |->
             LET ty == model.oty[CHOOSE i \in DOMAIN model.out : model.out[i] = n] IN Dec(ty, e.s[n])]

TLoad == l = 0 /\ Load(Cases[c]) /\ l' = 1 /\ UNCHANGED <<c, verdict>>
Is(k) == l >= 1 /\ l <= Len(Ev) /\ Ev[l].e = k
TEmit == Is("sol") /\ (Emit(Obs(Ev[l])) \/ EmitImproving(Obs(Ev[l])))
TComplete == Is("complete") /\ Complete
TUnsat == Is("unsat") /\ Unsat
TStop == Is("stop") /\ Stop
Step == (TEmit \/ TComplete \/ TUnsat \/ TStop) /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>

Explained == l >= 1 /\ l <= Len(Ev) /\ ENABLED (TEmit \/ TComplete \/ TUnsat \/ TStop)
Reject == /\ l >= 1 /\ l <= Len(Ev) /\ verdict = "none"
          /\ ~ENABLED (TEmit \/ TComplete \/ TUnsat \/ TStop)
          /\ verdict' = "rejected"
          /\ PrintT(<<"@", "REJ", c, l, Cardinality(sols), Cardinality(todo)>>)
          /\ UNCHANGED <<vars, c, l>>
Accept == /\ l = Len(Ev) + 1 /\ verdict = "none"
          /\ IF status = "run"
             THEN verdict' = "rejected" /\ PrintT(<<"@", "REJ", c, l, Cardinality(sols), Cardinality(todo)>>)
             ELSE verdict' = "accepted" /\ PrintT(<<"@", "ACC", c, Cardinality(sols)>>)
          /\ UNCHANGED <<vars, c, l>>
TNext == verdict = "none" /\ (TLoad \/ Step \/ Reject \/ Accept)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
