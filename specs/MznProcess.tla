----------------------------- MODULE MznProcess -----------------------------
(* The running of a solver process: the solver and the operating system (environment) and what the
   toolchain (the parent) may and must do.  Time is in milliseconds; the parent may use up to Slack
   for anything it has to do.  Byte streams are counted; that the delivered bytes are the next ones
   is established where traces are recorded. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slack,      \* reaction time granted to the parent
          Inf         \* later than any event
Ch == {"out", "err"}
Sigs == {"INT", "TERM", "KILL"}
VARIABLES cfg,      \* [limit, cleanup, first, ign, react, nopg, holder]
          now,
          wr, dl,   \* bytes written by the solver / delivered by the parent, per channel
          since,    \* time since which undelivered data are waiting, per channel
          open,     \* channels with a live write end
          alive, code, deathAt, reaped,
          pend, opt,      \* received interrupts that must / may still be passed on
          nextSig, due,   \* signal to be sent next and when
          nsent, intrs,   \* signals sent (number), interrupts received (sequence)
          limited,        \* a signal was sent because of the time limit
          killAt,         \* when the last resort was used
          ret
pvars == <<cfg, now, wr, dl, since, open, alive, code, deathAt, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt, ret>>

PInit(c) == /\ cfg = c /\ now = 0
            /\ wr = [x \in Ch |-> 0] /\ dl = [x \in Ch |-> 0] /\ since = [x \in Ch |-> Inf]
            /\ open = Ch /\ alive = TRUE /\ code = 0 /\ deathAt = Inf /\ reaped = FALSE
            /\ nextSig = c.first /\ due = IF c.limit > 0 THEN c.limit ELSE Inf
            /\ pend = {} /\ opt = {}
            /\ nsent = 0 /\ intrs = <<>> /\ limited = FALSE /\ killAt = Inf /\ ret = "none"

Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Up(s) == IF s = "INT" THEN "TERM" ELSE "KILL"
AllGone == ~alive /\ open = {}
\* the latest time at which the parent must have done something
Must == LET a == IF alive \/ open # {} THEN (IF pend # {} THEN Min(due, now) ELSE due) ELSE Inf
            b == Min(since["out"], since["err"])
            d == IF AllGone THEN deathAt ELSE Inf
            k == IF killAt = Inf THEN Inf ELSE killAt + cfg.cleanup
        IN  IF ret # "none" THEN Inf ELSE Min(Min(a, k), Min(b, d))
CanReach(t) == t >= now /\ (t = now \/ t <= Must + Slack)

------------------------------------------------------------------------------
\* the environment
Write(c, n) == /\ alive
               /\ wr' = [wr EXCEPT ![c] = @ + n]
               /\ since' = [since EXCEPT ![c] = IF @ = Inf THEN now ELSE @]
               /\ UNCHANGED <<cfg, now, dl, open, alive, code, deathAt, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt, ret>>
CloseCh(c) == /\ c \in open
              /\ open' = open \ {c}
              /\ deathAt' = IF ~alive /\ open' = {} THEN now ELSE deathAt
              /\ UNCHANGED <<cfg, now, wr, dl, since, alive, code, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt, ret>>
\* k is the exit status, or 1 for a death by a signal; a child of the solver may keep its channels open
Exit(k, keep) == /\ alive /\ alive' = FALSE /\ code' = k /\ open' = open \cap keep
                 /\ deathAt' = now
                 /\ UNCHANGED <<cfg, now, wr, dl, since, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt, ret>>
\* an interrupt (INT) or termination (TERM) signal arrives at the parent
Intr(s) == /\ ret = "none" /\ intrs' = Append(intrs, s)
           /\ pend' = IF \E i \in DOMAIN intrs : intrs[i] = s THEN pend ELSE pend \cup {s}
           /\ UNCHANGED <<cfg, now, wr, dl, since, open, alive, code, deathAt, reaped, nextSig, due, opt, nsent, limited, killAt, ret>>

------------------------------------------------------------------------------
\* the parent
Deliver(c, n) == /\ ret = "none" /\ n > 0 /\ dl[c] + n <= wr[c]
                 /\ dl' = [dl EXCEPT ![c] = @ + n]
                 /\ since' = [since EXCEPT ![c] = IF dl[c] + n = wr[c] THEN Inf ELSE now]
                 /\ UNCHANGED <<cfg, now, wr, open, alive, code, deathAt, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt, ret>>
\* a signal is sent exactly when it is due, and to the whole process group if there is one
Signal(s, grp) ==
             /\ ret = "none" /\ ~reaped
             /\ \/ s \in pend /\ pend' = {} /\ opt' = pend \ {s}
                \/ s \notin pend /\ s \in opt /\ opt' = {} /\ UNCHANGED pend
                \/ s = nextSig /\ due # Inf /\ now >= due /\ UNCHANGED <<pend, opt>>
             /\ grp = ~cfg.nopg
             /\ nextSig' = Up(s) /\ nsent' = nsent + 1
             /\ due' = IF s = "KILL" THEN Inf ELSE now + cfg.cleanup
             /\ limited' = (limited \/ intrs = <<>>)
             /\ killAt' = IF s = "KILL" THEN now ELSE killAt
             /\ UNCHANGED <<cfg, now, wr, dl, since, open, alive, code, deathAt, reaped, intrs, ret>>
Reap == /\ ret = "none" /\ ~alive /\ ~reaped /\ reaped' = TRUE
        /\ UNCHANGED <<cfg, now, wr, dl, since, open, alive, code, deathAt, nextSig, due, pend, opt, nsent, intrs, limited, killAt, ret>>
\* everything was delivered, the solver has ended
Result == IF intrs # <<>> THEN (IF \E i \in DOMAIN intrs : intrs[i] = "INT" THEN {"INT"} ELSE {"TERM"})
          ELSE IF limited THEN {"0"} ELSE {ToString(code)}
Return(v) == /\ ret = "none" /\ reaped /\ dl = wr
             /\ (open = {} \/ cfg.holder)
             /\ v \in Result
             /\ ret' = v
             /\ UNCHANGED <<cfg, now, wr, dl, since, open, alive, code, deathAt, reaped, nextSig, due, pend, opt, nsent, intrs, limited, killAt>>
=============================================================================
