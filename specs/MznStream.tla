------------------------------ MODULE MznStream ------------------------------
(* Translation of a solver's output stream into the user's output (solns2out): a state machine that
   consumes the lines of the stream and appends records to the output.  Records are
     <<"l", text>>            a line of plain output
     <<"solution", text>> <<"comment", text>> <<"status", text>> <<"statistics", text>>   JSON messages
   The input is a sequence of line records
     [k |-> "asg", a |-> << <<name, value>>, ... >>]   assignments (any layout)
     [k |-> "sep"]  [k |-> "st", t |-> status code]    separator and status lines
     [k |-> "com", t |-> text]  [k |-> "stat", t |-> "name=value"]  [k |-> "statend"]  [k |-> "blank"]
     [k |-> "bad"]                                     text that is not an assignment
   How the bytes of these lines are cut into reads is the subject of MznChunks. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES opt,      \* options (a record, see Opt below)
          in,       \* lines not yet read
          skip,     \* leading lines still to be ignored
          pend,     \* assignments since the last solution
          poisoned, \* the pending text is not readable
          seen,     \* sequence of distinct solutions (texts with sort keys), in order of arrival
          nsol,     \* number of solutions printed or stored
          sbuf,     \* collected statistics (JSON)
          st,       \* status known so far
          printed,  \* a status line has been handled
          out,      \* output records
          noncan,   \* records written to the non-canonical file
          phase     \* "read" | "done" | "failed"
svars == <<opt, in, skip, pend, poisoned, seen, nsol, sbuf, st, printed, out, noncan, phase>>

\* ---------------------------------------------------------------- text
\* values: [val |-> integer], [bool |-> Boolean], [arr |-> sequence of integers]
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Show(v) == IF "arr" \in DOMAIN v THEN "[" \o Join([i \in DOMAIN v.arr |-> ToString(v.arr[i])], ", ") \o "]"
           ELSE IF "bool" \in DOMAIN v THEN (IF v.bool THEN "true" ELSE "false") ELSE ToString(v.val)
Part(p, a) == IF p[1] = "s" THEN p[2] ELSE Show(a[p[2]])
LineText(ps, a) == Join([i \in DOMAIN ps |-> Part(ps[i], a)], "")
\* the output of a solution: a sequence of lines given by the model's output item
SolText(a) == [i \in DOMAIN opt.item |-> LineText(opt.item[i], a)]
\* sort key: the shown values in order (the generator keeps them to one character each)
KeyOf(v) == IF "arr" \in DOMAIN v THEN v.arr ELSE IF "bool" \in DOMAIN v THEN <<IF v.bool THEN 1 ELSE 0>> ELSE <<v.val>>
SortKey(a) == LET ps == FlattenSeq([i \in DOMAIN opt.item |-> SelectSeq(opt.item[i], LAMBDA p : p[1] = "v")])
                  vs == FlattenSeq([i \in DOMAIN ps |-> KeyOf(a[ps[i][2]])])
              IN vs
RECURSIVE KeyLess(_, _)
KeyLess(a, b) == IF a = <<>> \/ b = <<>> THEN Len(a) < Len(b)
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE KeyLess(Tail(a), Tail(b))

Lines(ls) == [i \in DOMAIN ls |-> <<"l", ls[i]>>]
SolRec(ls, sep) ==
  IF opt.json THEN << <<"solution", Join(ls, "\n")>> >>
  ELSE Lines(ls) \o (IF sep = "" THEN <<>> ELSE << <<"l", sep>> >>)
Comma == IF opt.comma = "" THEN <<>> ELSE << <<"l", opt.comma>> >>

StatusText(s) ==
  IF opt.json
  THEN CASE s = "OPT" -> (IF opt.msg.OPT = "" THEN "" ELSE IF opt.sat THEN "ALL_SOLUTIONS" ELSE "OPTIMAL_SOLUTION")
         [] s = "UNSAT" -> "UNSATISFIABLE" [] s = "UNBND" -> "UNBOUNDED"
         [] s = "UNSATorUNBND" -> "UNSAT_OR_UNBOUNDED" [] s = "UNKNOWN" -> "UNKNOWN"
         [] s = "ERROR" -> "ERROR" [] OTHER -> ""
  ELSE IF s = "SAT" THEN "" ELSE opt.msg[s]
StatusRec(s) == LET t == StatusText(s)
                IN IF t = "" THEN <<>> ELSE << <<IF opt.json THEN "status" ELSE "l", t>> >>

\* canonical output: the distinct solutions in order
Sorted(ss) == SortSeq(ss, LAMBDA x, y : KeyLess(x.key, y.key))
RECURSIVE CanonOut(_, _)
CanonOut(ss, first) ==
  IF ss = <<>> THEN <<>>
  ELSE (IF first THEN <<>> ELSE Comma) \o SolRec(ss[1].txt, opt.sep) \o CanonOut(Tail(ss), FALSE)
\* everything printed when a status becomes known
AtStatus(s) == (IF opt.canon THEN CanonOut(Sorted(seen), TRUE) ELSE <<>>) \o StatusRec(s)
FlushStats == IF sbuf = <<>> THEN <<>> ELSE << <<"statistics", Join(sbuf, ";")>> >>

\* ---------------------------------------------------------------- transitions
Start(o, lines) ==
  /\ opt = o /\ in = lines /\ skip = o.ign
  /\ pend = <<>> /\ poisoned = FALSE /\ seen = <<>> /\ nsol = 0 /\ sbuf = <<>>
  /\ st = "UNKNOWN" /\ printed = FALSE /\ out = <<>> /\ noncan = <<>> /\ phase = "read"

Read(k) == phase = "read" /\ in # <<>> /\ skip = 0 /\ in[1].k = k /\ in' = Tail(in)

Ignore == /\ phase = "read" /\ in # <<>> /\ skip > 0
          /\ in' = Tail(in) /\ skip' = skip - 1
          /\ UNCHANGED <<opt, pend, poisoned, seen, nsol, sbuf, st, printed, out, noncan, phase>>

Assign == /\ Read("asg")
          /\ pend' = LET a == in[1].a IN
                [n \in {a[i][1] : i \in DOMAIN a} |-> a[CHOOSE i \in DOMAIN a : a[i][1] = n][2]] @@ pend
          /\ UNCHANGED <<opt, skip, poisoned, seen, nsol, sbuf, st, printed, out, noncan, phase>>

Blank == /\ Read("blank")
         /\ UNCHANGED <<opt, skip, pend, poisoned, seen, nsol, sbuf, st, printed, out, noncan, phase>>

Bad == /\ Read("bad") /\ poisoned' = TRUE
       /\ UNCHANGED <<opt, skip, pend, seen, nsol, sbuf, st, printed, out, noncan, phase>>

Comment == /\ Read("com")
           /\ LET r == << <<IF opt.json THEN "comment" ELSE "l", IF opt.json THEN in[1].t \o "\n" ELSE in[1].t>> >>
              IN /\ out' = IF opt.com THEN out \o r ELSE out
                 /\ noncan' = IF opt.com /\ opt.canon THEN noncan \o r ELSE noncan
           /\ UNCHANGED <<opt, skip, pend, poisoned, seen, nsol, sbuf, st, printed, phase>>

Stat == /\ Read("stat")
        /\ IF ~opt.com THEN UNCHANGED <<out, sbuf, noncan>>
           ELSE IF opt.json THEN sbuf' = Append(sbuf, in[1].t) /\ UNCHANGED <<out, noncan>>
           ELSE LET r == << <<"l", "%%%mzn-stat: " \o in[1].t>> >>
                IN /\ out' = out \o r
                   /\ noncan' = IF opt.canon THEN noncan \o r ELSE noncan
                   /\ UNCHANGED sbuf
        /\ UNCHANGED <<opt, skip, pend, poisoned, seen, nsol, st, printed, phase>>

StatEnd == /\ Read("statend")
           /\ IF ~opt.com THEN UNCHANGED <<out, sbuf, noncan>>
              ELSE IF opt.json THEN /\ out' = out \o << <<"statistics", Join(sbuf, ";")>> >>
                                    /\ noncan' = IF opt.canon THEN noncan \o << <<"statistics", Join(sbuf, ";")>> >> ELSE noncan
                                    /\ sbuf' = <<>>
              ELSE LET r == << <<"l", "%%%mzn-stat-end">> >>
                   IN /\ out' = out \o r
                      /\ noncan' = IF opt.canon THEN noncan \o r ELSE noncan
                      /\ UNCHANGED sbuf
           /\ UNCHANGED <<opt, skip, pend, poisoned, seen, nsol, st, printed, phase>>

\* a solution: printed (or stored) unless it is a repetition
Solution ==
  /\ Read("sep") /\ ~poisoned /\ opt.needs \subseteq DOMAIN pend
  /\ LET txt == SolText(pend)
         new == ~\E i \in DOMAIN seen : seen[i].txt = txt
         store == opt.uniq \/ opt.canon
         fl == FlushStats
     IN /\ seen' = IF store /\ new THEN Append(seen, [txt |-> txt, key |-> SortKey(pend)]) ELSE seen
        /\ nsol' = IF ~store \/ new THEN nsol + 1 ELSE nsol
        /\ out' = IF opt.canon \/ (store /\ ~new) THEN out \o fl
                  ELSE out \o fl \o (IF nsol = 0 THEN <<>> ELSE Comma) \o SolRec(txt, opt.sep)
        /\ noncan' = IF opt.canon /\ new THEN noncan \o SolRec(txt, opt.sep) ELSE noncan
        /\ st' = "SAT"
  /\ pend' = <<>> /\ sbuf' = <<>>
  /\ UNCHANGED <<opt, skip, poisoned, printed, phase>>

\* a separator after text that is no solution is an error
Broken ==
  /\ Read("sep") /\ (poisoned \/ ~(opt.needs \subseteq DOMAIN pend))
  /\ phase' = "failed"
  /\ UNCHANGED <<opt, skip, pend, poisoned, seen, nsol, sbuf, st, printed, out, noncan>>

Status == /\ Read("st")
          /\ out' = out \o FlushStats \o AtStatus(in[1].t)
          /\ sbuf' = <<>> /\ st' = in[1].t /\ printed' = TRUE
          /\ UNCHANGED <<opt, skip, pend, poisoned, seen, nsol, noncan, phase>>

\* the solver has ended with exit status opt.rc (opt.rc # 0 includes death by a signal)
Final == IF opt.rc = 0 THEN st ELSE "ERROR"
End == /\ phase = "read" /\ in = <<>>
       \* a stand-alone translation of a recorded stream has no solver to report on
       /\ out' = out \o (IF printed THEN <<>>
                        ELSE IF opt.sa THEN (IF opt.canon THEN CanonOut(Sorted(seen), TRUE) ELSE <<>>)
                        ELSE AtStatus(Final)) \o FlushStats
       /\ phase' = "done"
       /\ st' = Final
       /\ UNCHANGED <<opt, in, skip, pend, poisoned, seen, nsol, sbuf, printed, noncan>>

Next == Ignore \/ Assign \/ Blank \/ Bad \/ Comment \/ Stat \/ StatEnd \/ Solution \/ Broken \/ Status \/ End

ExitOK == phase = "done" /\ (opt.sa \/ st # "ERROR")

\* ---------------------------------------------------------------- design properties
SolutionsOf(o) == SelectSeq(o, LAMBDA r : r[1] = "solution")
\* with duplicate elimination no solution message occurs twice
Distinct == (opt.json /\ (opt.uniq \/ opt.canon)) =>
               \A i, j \in DOMAIN SolutionsOf(out) : i # j => SolutionsOf(out)[i] # SolutionsOf(out)[j]
\* at the end every distinct solution of the stream has been printed
Delivered == (phase = "done" /\ opt.json /\ (opt.uniq \/ opt.canon)) => Len(SolutionsOf(out)) = Len(seen)
\* exactly one final status unless a solution was found and nothing was claimed
OneStatus == (phase = "done" /\ opt.json) =>
   LET n == Len(SelectSeq(out, LAMBDA r : r[1] = "status")) IN
     /\ (n = 0) <=> (StatusText(st) = "" \/ (printed /\ StatusText(st) = ""))
        \/ (printed /\ st = "ERROR" /\ opt.rc # 0)
\* a failing solver is never reported as success
FailNotOK == (phase = "done" /\ opt.rc # 0 /\ ~opt.sa) => ~ExitOK
=============================================================================
