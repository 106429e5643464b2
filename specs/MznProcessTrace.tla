--------------------------- MODULE MznProcessTrace ---------------------------
(* Trace validation: each recorded run of the real solver loop in the virtual operating system must
   be a behaviour of MznProcess.  Every event is [t |-> ms, k |-> kind, a |-> channel, signal or
   result, b |-> number]. *)
EXTENDS MznProcess, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, verdict
tvars == <<pvars, c, i, verdict>>
Cfg(x) == [x EXCEPT !.ign = {x.ign[j] : j \in DOMAIN x.ign}]
TInit == c \in 1..Len(Cases) /\ i = 1 /\ verdict = "none" /\ PInit(Cfg(Cases[c].cfg))
T == Cases[c].tr
E == T[i]
\* time passes until the next event
Advance == /\ i <= Len(T) /\ E.t > now /\ CanReach(E.t) /\ now' = E.t
           /\ UNCHANGED <<cfg, wr, dl, since, open, alive, code, deathAt, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt, ret, c, i, verdict>>
\* the environment may act after the run, the parent may not
Event == \/ E.k = "w" /\ Write(E.a, E.b)
         \/ E.k = "close" /\ CloseCh(E.a)
         \/ E.k = "exit" /\ Exit(E.b, IF E.a = "keep" THEN {"out"} ELSE {})
         \/ E.k = "intr" /\ Intr(E.a)
         \/ E.k = "d" /\ Deliver(E.a, E.b)
         \/ E.k = "sig" /\ Signal(E.a, E.b = 1)
         \/ E.k = "reap" /\ Reap
         \* a line end is added only at the end of the output
         \/ E.k = "nl" /\ ret = "none" /\ dl["out"] = wr["out"] /\ ("out" \notin open \/ killAt # Inf) /\ UNCHANGED pvars
         \* dying of a signal is permitted when nothing is left to do
         \/ E.k = "default" /\ reaped /\ dl = wr /\ intrs # <<>> /\ ret' = "signal"
            /\ UNCHANGED <<cfg, now, wr, dl, since, open, alive, code, deathAt, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt>>
         \/ E.k = "ret" /\ Return(E.a)
Act == i <= Len(T) /\ E.t = now /\ Event /\ i' = i + 1 /\ UNCHANGED <<c, verdict>>
Accept == i > Len(T) /\ ret # "none" /\ verdict' = "accepted" /\ PrintT(<<"@", "ACC", c, nsent>>) /\ UNCHANGED <<pvars, c, i>>
Stuck == /\ ~ENABLED Advance /\ ~ENABLED Act /\ ~(i > Len(T) /\ ret # "none")
         /\ verdict' = "rejected" /\ PrintT(<<"@", "REJ", c, i, IF i > Len(T) THEN "end" ELSE E.k, now, Must>>)
         /\ UNCHANGED <<pvars, c, i>>
TNext == verdict = "none" /\ (Advance \/ Act \/ Accept \/ Stuck)
TSpec == TInit /\ [][TNext]_tvars
NothingLost == (ret # "none" /\ ret # "signal") => dl = wr /\ ~alive
BoundedEnd == (ret = "none" /\ cfg.limit > 0 /\ intrs = <<>>) => now <= cfg.limit + 3 * cfg.cleanup + 4 * Slack
Undisturbed == (ret # "none" /\ cfg.limit > 0 /\ deathAt < cfg.limit /\ intrs = <<>> /\ ~cfg.holder) => nsent = 0
=============================================================================
