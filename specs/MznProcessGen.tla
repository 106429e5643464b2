--------------------------- MODULE MznProcessGen ---------------------------
(* Closes MznProcess: a nondeterministic environment and a reference parent that acts as late as it
   may.  TLC checks the invariants exhaustively for small constants, and in simulation mode prints
   the environment's script of each behaviour for replay into the real code. *)
EXTENDS MznProcess, Json
CONSTANTS Limits, Steps, Sizes, Ns, Firsts, Intrs, Waits, KeepHist, Holder
VARIABLES n, hist, wait, dieAt
gvars == <<pvars, n, hist, wait, dieAt>>
React == {0, 300}
Cfgs == [limit: Limits, cleanup: {1000}, first: Firsts, ign: SUBSET {"INT", "TERM"}, react: React, nopg: BOOLEAN, holder: Holder]
GInit == \E c \in Cfgs : PInit(c) /\ n = 0 /\ hist = <<>> /\ wait = 0 /\ dieAt = Inf
Log(e) == /\ n' = n + 1
          /\ hist' = IF KeepHist THEN Append(hist, e) ELSE <<>>
          /\ wait' = 0
Ev(k, a, b) == [d |-> wait, k |-> k, a |-> a, b |-> b]
\* what the environment still may do by itself
Env == /\ n < Steps /\ ret = "none"
       /\ \/ alive /\ dieAt = Inf /\ \E c \in open, x \in Ns : Write(c, x) /\ Log(Ev("w", c, x)) /\ UNCHANGED dieAt
          \/ alive /\ dieAt = Inf /\ \E c \in open : CloseCh(c) /\ Log(Ev("c", c, 0)) /\ UNCHANGED dieAt
          \/ alive /\ dieAt = Inf /\ \E k \in {0, 3} : Exit(k, IF cfg.holder THEN {"out"} ELSE {}) /\ Log(Ev("x", "", k)) /\ UNCHANGED dieAt
          \/ ~alive /\ cfg.holder /\ \E c \in open : CloseCh(c) /\ Log(Ev("h", c, 0)) /\ UNCHANGED dieAt
          \/ \E s \in Intrs : Intr(s) /\ Log(Ev("i", s, 0)) /\ UNCHANGED dieAt
\* the solver dies some time after a signal it does not ignore
Die == /\ alive /\ now = dieAt /\ Exit(0, IF cfg.holder THEN {"out"} ELSE {}) /\ UNCHANGED <<n, hist, wait, dieAt>>
\* a killed group includes the holder of the channels
Gone == /\ ~cfg.nopg /\ ~alive /\ open # {} /\ nsent > 0 /\ nextSig = "KILL" /\ due = Inf /\ CloseCh(CHOOSE c \in open : TRUE)
        /\ UNCHANGED <<n, hist, wait, dieAt>>
Parent == \/ \E c \in Ch : wr[c] > dl[c] /\ Deliver(c, wr[c] - dl[c]) /\ UNCHANGED <<n, hist, wait, dieAt>>
          \/ \E s \in Sigs : /\ Signal(s, ~cfg.nopg)
                             /\ dieAt' = IF alive THEN (IF s = "KILL" THEN now ELSE IF s \in cfg.ign THEN dieAt ELSE Min(dieAt, now + cfg.react)) ELSE dieAt
                             /\ UNCHANGED <<n, hist, wait>>
          \/ Reap /\ UNCHANGED <<n, hist, wait, dieAt>>
          \/ \E v \in {"INT", "TERM", "0", "1", "3"} : Return(v) /\ UNCHANGED <<n, hist, wait, dieAt>>
Tick == /\ ret = "none"
        /\ (Must < Inf \/ (alive /\ dieAt < Inf) \/ now < 3000)
        /\ \E d \in Waits :
             LET t == Min(now + d, Min(IF alive THEN dieAt ELSE Inf, Must))
             IN  /\ t > now /\ t < Inf
                 /\ CanReach(t)
                 /\ now' = t /\ wait' = IF KeepHist THEN wait + (t - now) ELSE 0
        /\ UNCHANGED <<cfg, wr, dl, since, open, alive, code, deathAt, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt, ret, n, hist, dieAt>>
Out == /\ ret # "none" /\ n < 999
       /\ PrintT(<<"@", "SCHED", ToJson([cfg |-> cfg, ev |-> hist])>>) /\ n' = 999
       /\ UNCHANGED <<pvars, hist, wait, dieAt>>
\* the solver is not asked to run forever: when nothing else is left to happen, it exits
Last == /\ alive /\ n >= Steps /\ dieAt = Inf /\ Must = Inf
        /\ Exit(0, {}) /\ hist' = (IF KeepHist THEN Append(hist, Ev("x", "", 0)) ELSE <<>>) /\ UNCHANGED <<n, wait, dieAt>>
LastH == /\ ~alive /\ open # {} /\ n >= Steps /\ Must = Inf /\ CloseCh(CHOOSE c \in open : TRUE)
         /\ hist' = (IF KeepHist THEN Append(hist, Ev("h", CHOOSE c \in open : TRUE, 0)) ELSE <<>>) /\ UNCHANGED <<n, wait, dieAt>>
GNext == IF KeepHist /\ ret # "none" THEN Out ELSE Env \/ Die \/ Gone \/ Parent \/ Tick \/ Last \/ LastH
GSpec == GInit /\ [][GNext]_gvars
------------------------------------------------------------------------------
\* consequences the reference parent must have
NothingLost == ret # "none" => dl = wr /\ ~alive
NoEarlySignal == (nsent > 0 /\ intrs = <<>>) => (cfg.limit > 0 /\ now >= cfg.limit)
\* the run ends in time: after the limit or an interrupt two more escalations and one cleanup period suffice
BoundedEnd == (ret = "none" /\ cfg.limit > 0 /\ intrs = <<>>) => now <= cfg.limit + 3 * cfg.cleanup + Slack
Undisturbed == (ret # "none" /\ cfg.limit > 0 /\ deathAt < cfg.limit /\ intrs = <<>> /\ ~cfg.holder) => nsent = 0
Escalates == nsent <= 3 + 3 * Len(intrs)
Progress == ret # "none" \/ ENABLED GNext
=============================================================================
