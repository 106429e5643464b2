------------------------- MODULE MznOptionsTrace -------------------------
(* Recorded runs of the driver against MznOptions: the machine reads the
   options of the case one at a time; in the end its command line for the
   solver is the one the solver process saw.                               *)
EXTENDS MznOptions, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, st, done
vars == <<c, i, st, done>>

SetOf(s) == {s[k] : k \in 1..Len(s)}
Obs(x) == IF x.obs.err THEN Failed
          ELSE [err |-> FALSE, warn |-> x.obs.warn, sw |-> SetOf(x.obs.sw),
                val |-> {<<x.obs.val[k][1], x.obs.val[k][2]>> : k \in 1..Len(x.obs.val)}, raw |-> x.obs.raw]

Init == c \in 1..Len(Cases) /\ i = 1 /\ st = Initial /\ done = FALSE

Read == /\ i <= Len(Cases[c].ops)
        /\ st' = Step(Cases[c].cfg, st, Cases[c].ops[i])
        /\ i' = i + 1 /\ UNCHANGED <<c, done>>

Start == /\ i > Len(Cases[c].ops) /\ ~done /\ done' = TRUE /\ UNCHANGED <<c, i, st>>
         /\ LET sel == Select(Cases[c].configs, Cases[c].query, Cases[c].defaults)
                r == IF sel = 0 \/ st.err THEN Failed ELSE Final(Cases[c].cfg, Cases[c].sat, st)
                ok == r = Obs(Cases[c]) /\ (r.err \/ sel = Cases[c].obs.sel)
            IN /\ PrintT(<<"@", IF ok THEN "ACC" ELSE "REJ", c, IF r.err THEN 0 ELSE 1>>)
               /\ (ok \/ PrintT(<<"case", c, sel, r>>))
Next == Read \/ Start
Spec == Init /\ [][Next]_vars

(* The machine's own invariants, whatever the options: a solver never gets a standard flag it
   does not declare, one value per option, and nothing about solutions that was not asked for. *)
OneValue == \A p, q \in st.val : p[1] = q[1] => p[2] = q[2]
OnlyDeclared ==
  ~st.err => LET f == Final(Cases[c].cfg, Cases[c].sat, st)
             IN /\ f.sw \subseteq Std(Cases[c].cfg)
                /\ {p[1] : p \in f.val} \subseteq Std(Cases[c].cfg) \cup {"-b"}
                /\ (Cases[c].sat => "-i" \notin f.sw)
=============================================================================
