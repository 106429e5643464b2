---------------------------- MODULE MznOptions ----------------------------
(* How command line options reach a solver process, and which solver a
   name selects.

   A run is a machine that reads the default options of the solver (from the
   user's preferences) and then the options of the command line one at a time,
   and finally starts the solver with a command line of its own.

   cfg  [std   : set of standard flags the solver declares,
         extra : set of extra flags it declares, [n, arg],
         pass  : sequence of flags its configuration always passes]
   op   [k : canonical option, v : value or ""]                             *)
EXTENDS Naturals, Sequences, FiniteSets

Std(cfg) == {cfg.std[i] : i \in 1..Len(cfg.std)}
Extra(cfg) == {cfg.extra[i] : i \in 1..Len(cfg.extra)}

(* Options whose value the solver gets if it declares them; the last one counts. *)
Valued == {"-p", "-r", "-n", "-n-o"}
(* Without a declaration these have no effect ... *)
Silent == {"-p", "-r", "-s", "-f"}
(* ... and these are refused. *)
Refused == {"-n", "-n-o", "-a-o"}

Initial == [err |-> FALSE,      \* the command line is refused
            all |-> FALSE,      \* all solutions of a satisfaction problem wanted
            int |-> FALSE,      \* intermediate solutions of an optimisation problem wanted
            sw |-> {},          \* switches given
            val |-> {},         \* <<option, value>>, one per option
            raw |-> <<>>]       \* tokens passed in the order given

SetVal(st, k, v) == [st EXCEPT !.val = {p \in @ : p[1] # k} \cup {<<k, v>>}]

Step(cfg, st, op) ==
  LET std == Std(cfg)
      solns == {"-a", "-i"} \cap std # {}
  IN CASE st.err -> st
       [] op.k = "-a" -> IF solns THEN [st EXCEPT !.all = TRUE, !.int = TRUE] ELSE [st EXCEPT !.err = TRUE]
       [] op.k = "-i" -> IF solns THEN [st EXCEPT !.int = TRUE] ELSE [st EXCEPT !.err = TRUE]
       [] op.k = "-n-i" -> [st EXCEPT !.int = FALSE]
       [] op.k = "--all-satisfaction" -> IF "-a" \in std THEN [st EXCEPT !.all = TRUE] ELSE [st EXCEPT !.err = TRUE]
       [] op.k = "--disable-all-satisfaction" -> [st EXCEPT !.all = FALSE]
       [] op.k = "-t" -> SetVal(st, "-t", op.v)
       [] op.k = "-b" -> SetVal(st, "-b", op.v)
       [] op.k = "raw" -> [st EXCEPT !.raw = Append(@, op.v)]
       [] op.k \in Refused /\ op.k \notin std -> [st EXCEPT !.err = TRUE]
       [] op.k \in Silent /\ op.k \notin std -> st
       [] op.k \in Valued /\ op.k \in std -> SetVal(st, op.k, op.v)
       [] op.k \in std -> [st EXCEPT !.sw = @ \cup {op.k}]
       [] OTHER ->
            LET m == {f \in Extra(cfg) : f.n = op.k}
            IN IF m = {} THEN [st EXCEPT !.err = TRUE]
               ELSE IF (CHOOSE f \in m : TRUE).arg THEN [st EXCEPT !.raw = @ \o <<op.k, op.v>>]
               ELSE [st EXCEPT !.raw = Append(@, op.k)]

(* The command line of the solver. *)
Final(cfg, sat, st) ==
  LET std == Std(cfg)
      last(k) == {p \in st.val : p[1] = k}
  IN [err |-> FALSE,
      warn |-> sat /\ st.all /\ "-a" \notin std,
      sw |-> (st.sw \cap {"-s", "-f"})
             \cup (IF sat /\ st.all /\ "-a" \in std THEN {"-a"} ELSE {})
             \cup (IF ~sat /\ st.int THEN {IF "-i" \in std THEN "-i" ELSE "-a"} ELSE {})
             \cup (IF ~sat /\ "-a-o" \in st.sw THEN {"-a-o"} ELSE {}),
      val |-> last("-p") \cup last("-r") \cup last("-b")
              \cup (IF "-t" \in std THEN last("-t") ELSE {})
              \cup (IF sat THEN last("-n") \ {<<"-n", "1">>} ELSE {})
              \cup (IF sat THEN {} ELSE last("-n-o") \ {<<"-n-o", "1">>}),
      raw |-> cfg.pass \o st.raw]

Failed == [err |-> TRUE, warn |-> FALSE, sw |-> {}, val |-> {}, raw |-> <<>>]

(* ---------------------------------------------------------------------- *)
(* Selection.  A configuration answers to its identifier, the last component
   of the identifier, its name and its tags; a query is a sequence of
   [t, v] (tag, version or ""); defaults maps tags to identifiers.          *)
Answers(c, t) == t \in {c.id, c.last, c.name} \cup {c.tags[i] : i \in 1..Len(c.tags)}
ByTag(cs, t) == {i \in 1..Len(cs) : Answers(cs[i], t)}
ByVersion(cs, q) == {i \in ByTag(cs, q.t) : q.v = "" \/ cs[i].version = q.v}

Candidates(cs, q) ==
  LET first == IF ByVersion(cs, q[1]) # {} THEN ByVersion(cs, q[1]) ELSE ByTag(cs, q[1].t)
  IN {i \in first : \A k \in 2..Len(q) : i \in ByVersion(cs, q[k])}

(* The solver chosen, 0 if none.  Among several candidates one that is the default for a
   tag of the query wins; otherwise the one found first. *)
Select(cs, q, defaults) ==
  LET all == IF q = <<>> THEN {} ELSE Candidates(cs, q)
      pref == {i \in all : \E d \in 1..Len(defaults), k \in 1..Len(q) : defaults[d].t = q[k].t /\ defaults[d].id = cs[i].id}
      pick(S) == CHOOSE i \in S : \A j \in S : i <= j
  IN IF all = {} THEN 0 ELSE IF pref # {} THEN pick(pref) ELSE pick(all)
=============================================================================
