------------------------------ MODULE MznData ------------------------------
(***************************************************************************)
(* Parameter data: declarations, assignments from several sources (model,  *)
(* DZN files, JSON files, the command line) and the value every parameter  *)
(* gets, or an error.                                                      *)
(*                                                                         *)
(* A case: decls  sequence of [n, t, par] (t a type), enums = sequence of  *)
(*         enumeration names, asg = sequence of [n, v, j]: an assignment   *)
(*         of written value v to name n, j = TRUE if from a JSON file.     *)
(* Types:  [k |-> "i", lo, hi, up]  integers (lo > hi: unrestricted; without not; up a  *)
(*           parameter giving the upper bound if not ""), "b", "f" (floats *)
(*           in quarters), "s", [k |-> "e", n], "set"/"opt" with el,       *)
(*         "arr" with ix and el, "tup" with f, "rec" with f = <<n, t>>.    *)
(* Values: tagged tuples <<"i", 3>>; arrays are <<"a", index sets, list>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Err == <<>>
Ok(v) == <<v>>
Min2(a, b) == IF a < b THEN a ELSE b
Asg(c, n) == SelectSeq(c.asg, LAMBDA a : a.n = n)
Declared(c) == {c.decls[i].n : i \in 1..Len(c.decls)} \cup {c.enums[i] : i \in 1..Len(c.enums)}
TypeOf(c, n) == c.decls[CHOOSE i \in 1..Len(c.decls) : c.decls[i].n = n].t

RECURSIVE SortInts(_), SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
SortInts(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE y \in S : \A z \in S : y <= z IN <<m>> \o SortInts(S \ {m})

(* the members of an enumeration: a written list of distinct names *)
EnumOf(c, n) ==
  LET a == Asg(c, n)
  IN IF Len(a) # 1 THEN Err
     ELSE IF a[1].v.k \notin {"set", "jl"} THEN Err
     ELSE Ok([i \in 1..Len(a[1].v.a) |-> a[1].v.a[i].v])
EnumAll(c) == {n \in {c.enums[i] : i \in 1..Len(c.enums)} : EnumOf(c, n) # Err}
OrdIn(c, e, m) ==
  LET es == EnumOf(c, e)
  IN IF es = Err THEN 0
     ELSE LET I == {i \in 1..Len(es[1]) : es[1][i] = m}
          IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Position(c, m) ==      \* a member of any enumeration counts as its position where a number is expected
  LET es == {c.enums[i] : i \in 1..Len(c.enums)}
  IN IF \E e \in es : OrdIn(c, e, m) # 0 THEN OrdIn(c, CHOOSE e \in es : OrdIn(c, e, m) # 0, m) ELSE 0
EnumSize(c, e) == LET es == EnumOf(c, e) IN IF es = Err THEN 0 ELSE Len(es[1])

AllOk(s) == \A i \in 1..Len(s) : s[i] # Err
Vals(s) == [i \in 1..Len(s) |-> s[i][1]]
Flatten2(rows) == [i \in 1..(Len(rows) * Len(rows[1])) |->
                    rows[((i - 1) \div Len(rows[1])) + 1][((i - 1) % Len(rows[1])) + 1]]
Size(ix) == IF ix[2] < ix[1] THEN 0 ELSE ix[2] - ix[1] + 1

(* values between lo and hi that are not in the domain of an integer type *)
Holes(t) == IF "not" \in DOMAIN t THEN {t.not[i] : i \in 1..Len(t.not)} ELSE {}

RECURSIVE Value(_, _, _), Coerce(_, _, _, _, _)
(* the value of parameter n; seen guards against cyclic definitions *)
Value(c, n, seen) ==
  LET a == Asg(c, n) t == TypeOf(c, n)
  IN IF n \in seen THEN Err
     ELSE IF Len(a) = 0 THEN (IF t.k = "opt" THEN Ok(<<"abs">>) ELSE Err)
     ELSE IF Len(a) > 1 THEN Err
     ELSE Coerce(c, t, a[1].v, a[1].j, seen \cup {n})

IntParam(c, n, seen) ==
  LET v == Value(c, n, seen) IN IF v = Err THEN Err ELSE IF v[1][1] # "i" THEN Err ELSE Ok(v[1][2])

(* declared index set: Err, <<"any">> or <<lo, hi>> *)
Ix(c, ix, seen) ==
  CASE ix.k = "any" -> Ok(<<"any">>)
    [] ix.k = "r" -> Ok(<<ix.lo, ix.hi>>)
    [] ix.k = "n" -> (LET v == IntParam(c, ix.n, seen) IN IF v = Err THEN Err ELSE Ok(<<1, v[1]>>))
    [] ix.k = "e" -> (IF EnumOf(c, ix.n) = Err THEN Err ELSE Ok(<<1, EnumSize(c, ix.n)>>))

Match(decl, act) ==        \* does the actual index set fit the declared one
  \/ decl = <<"any">>
  \/ decl = act
  \/ Size(decl) = 0 /\ Size(act) = 0

Coerce(c, t, w, j, seen) ==
  IF w.k = "ref"
  THEN IF j \/ w.n \notin {c.decls[i].n : i \in 1..Len(c.decls)} THEN Err
       ELSE LET t2 == TypeOf(c, w.n) v == Value(c, w.n, seen)
            IN IF v = Err THEN Err
               ELSE IF t2.k # "i" \/ t.k \notin {"i", "f", "opt"} THEN Err
               ELSE Coerce(c, t, [k |-> "i", v |-> v[1][2] + w.plus], FALSE, seen)
  ELSE CASE t.k = "i" ->
              (LET v == IF w.k = "i" THEN Ok(w.v) ELSE IF w.k = "b" THEN Ok(IF w.v THEN 1 ELSE 0)
                        ELSE IF w.k = "e" /\ Position(c, w.v) # 0 THEN Ok(Position(c, w.v)) ELSE Err
                   up == IF t.up = "" THEN Ok(t.hi) ELSE IntParam(c, t.up, seen)
               IN IF v = Err \/ up = Err THEN Err
                  ELSE IF (t.up # "" \/ t.lo <= t.hi) /\ ~(t.lo <= v[1] /\ v[1] <= up[1]) THEN Err
                  ELSE IF v[1] \in Holes(t) THEN Err
                  ELSE Ok(<<"i", v[1]>>))
         [] t.k = "b" -> (IF w.k = "b" THEN Ok(<<"b", w.v>>) ELSE Err)
         [] t.k = "f" -> (LET v == CASE w.k = "f" -> Ok(w.v) [] w.k = "i" -> Ok(4 * w.v) [] w.k = "b" -> Ok(IF w.v THEN 4 ELSE 0)
                                           [] w.k = "e" /\ Position(c, w.v) # 0 -> Ok(4 * Position(c, w.v)) [] OTHER -> Err
                          IN IF v = Err THEN Err
                             ELSE IF t.lo <= t.hi /\ ~(t.lo <= v[1] /\ v[1] <= t.hi) THEN Err
                             ELSE Ok(<<"f", v[1]>>))
         [] t.k = "s" -> (IF w.k = "s" THEN Ok(<<"s", w.v>>) ELSE Err)
         [] t.k = "e" -> (IF (w.k = "e" \/ (j /\ w.k = "s")) /\ OrdIn(c, t.n, w.v) # 0 THEN Ok(<<"i", OrdIn(c, t.n, w.v)>>) ELSE Err)
         [] t.k = "opt" -> (IF w.k = "abs" THEN Ok(<<"abs">>) ELSE Coerce(c, t.el, w, j, seen))
         [] t.k = "set" ->
              (IF w.k = "rng"
               THEN LET l == Coerce(c, t.el, w.lo, j, seen) h == Coerce(c, t.el, w.hi, j, seen)
                        \* the bounds of an empty range need not be in the domain
                        raw == w.lo.k = "i" /\ w.hi.k = "i" /\ t.el.k = "i"
                    IN IF raw /\ w.lo.v > w.hi.v THEN Ok(<<"set", <<>>>>)
                       ELSE IF l = Err \/ h = Err THEN Err
                       ELSE IF (l[1][2]..h[1][2]) \cap Holes(t.el) # {} THEN Err
                       ELSE Ok(<<"set", SortInts(l[1][2]..h[1][2])>>)
               \* the members of a JSON set literal are all strings or all objects
               ELSE IF j /\ w.k = "set" /\ {"s", "e"} \subseteq {w.a[i].k : i \in 1..Len(w.a)} THEN Err
               ELSE IF w.k = "set" \/ (j /\ w.k = "jl")
               THEN LET es == [i \in 1..Len(w.a) |-> Coerce(c, t.el, w.a[i], j, seen)]
                    IN IF AllOk(es) THEN Ok(<<"set", SortInts({es[i][1][2] : i \in 1..Len(es)})>>) ELSE Err
               ELSE Err)
         [] t.k = "tup" ->
              (IF w.k \in {"tup"} \cup (IF j THEN {"jl"} ELSE {}) /\ Len(w.a) = Len(t.f)
               THEN LET es == [i \in 1..Len(w.a) |-> Coerce(c, t.f[i], w.a[i], j, seen)]
                    IN IF AllOk(es) THEN Ok(<<"t", Vals(es)>>) ELSE Err
               ELSE Err)
         [] t.k = "rec" ->
              (IF w.k = "rec" /\ Len(w.a) = Len(t.f) /\ {w.a[i].n : i \in 1..Len(w.a)} = {t.f[i].n : i \in 1..Len(t.f)}
               THEN LET At(n) == w.a[CHOOSE i \in 1..Len(w.a) : w.a[i].n = n].v
                        es == [i \in 1..Len(t.f) |-> Coerce(c, t.f[i].t, At(t.f[i].n), j, seen)]
                    IN IF AllOk(es) THEN Ok(<<"t", Vals(es)>>) ELSE Err
               ELSE Err)
         [] t.k = "arr" ->
              (LET ds == [i \in 1..Len(t.ix) |-> Ix(c, t.ix[i], seen)]
                   d == Vals(ds)
                   Elts(s) == [i \in 1..Len(s) |-> Coerce(c, t.el, s[i], j, seen)]
                   Arr(ixs, s) == IF AllOk(Elts(s)) THEN Ok(<<"a", ixs, Vals(Elts(s))>>) ELSE Err
                   Fit(ixs, s) == IF Len(ixs) = Len(d) /\ \A i \in 1..Len(d) : Match(d[i], ixs[i])
                                  THEN Arr([i \in 1..Len(d) |-> IF d[i] = <<"any">> THEN ixs[i] ELSE d[i]], s) ELSE Err
                   \* JSON lists take the declared index sets
                   JFit(ns, s) == IF \A i \in 1..Len(d) : d[i] = <<"any">> \/ Size(d[i]) = ns[i]
                                  THEN Arr([i \in 1..Len(d) |-> IF d[i] = <<"any">> THEN <<1, ns[i]>> ELSE d[i]], s) ELSE Err
               IN IF ~AllOk(ds) THEN Err
                  ELSE CASE w.k = "arr1" -> (IF Len(t.ix) # 1 THEN Err ELSE Fit(<<<<w.base, w.base + Len(w.a) - 1>>>>, w.a))
                         [] w.k = "arrk" -> (IF Len(t.ix) # 1 \/ t.ix[1].k # "e" THEN Err
                                             ELSE LET os == [i \in 1..Len(w.key) |-> OrdIn(c, t.ix[1].n, w.key[i])]
                                                  IN IF {os[i] : i \in 1..Len(os)} = 1..EnumSize(c, t.ix[1].n) /\ Len(os) = EnumSize(c, t.ix[1].n)
                                                     THEN Arr(<<<<1, Len(os)>>>>, [i \in 1..Len(os) |-> w.a[CHOOSE p \in 1..Len(os) : os[p] = i]])
                                                     ELSE Err)
                         [] w.k = "arr2" -> (IF Len(t.ix) # 2 THEN Err
                                             ELSE Fit(<<<<1, Len(w.a)>>, <<1, Len(w.a[1])>>>>, Flatten2(w.a)))
                         [] w.k = "arrn" -> (IF Len(t.ix) # Len(w.ix) THEN Err ELSE Fit(w.ix, w.a))
                         [] w.k = "jl" /\ j ->
                              (IF Len(t.ix) = 1 THEN JFit(<<Len(w.a)>>, w.a)
                               ELSE IF \E i \in 1..Len(w.a) : w.a[i].k # "jl" THEN Err
                               ELSE IF \E i \in 1..Len(w.a) : Len(w.a[i].a) # Len(w.a[1].a) THEN Err
                               ELSE JFit(<<Len(w.a), Len(w.a[1].a)>>, Flatten2([i \in 1..Len(w.a) |-> w.a[i].a])))
                         [] OTHER -> Err)

(* The run is an error if any value is, or an assignment outside JSON files names nothing. *)
Unknown(c) == \E i \in 1..Len(c.asg) : ~c.asg[i].j /\ c.asg[i].n \notin Declared(c)
Distinct(s) == \A i, k \in 1..Len(s) : i # k => s[i] # s[k]
EnumsOk(c) == \A i \in 1..Len(c.enums) : EnumOf(c, c.enums[i]) # Err
Outcome(c) ==
  LET vs == [i \in 1..Len(c.decls) |-> Value(c, c.decls[i].n, {})]
  IN IF Unknown(c) \/ ~EnumsOk(c) \/ ~AllOk(vs) THEN Err ELSE Ok(Vals(vs))

(* The value that the output of a run denotes when it is read as data for   *)
(* the same declarations: the value itself; the JSON format does not have   *)
(* index sets, so undeclared ones start from 1.                             *)
Reread(mode, t, v) ==
  IF mode = "json" /\ t.k = "arr"
  THEN <<"a", [i \in 1..Len(v[2]) |-> IF t.ix[i].k = "any" THEN <<1, Size(v[2][i])>> ELSE v[2][i]], v[3]>>
  ELSE v
Outcome2(c) ==
  LET o == Outcome(c)
  IN IF c.mode = "" \/ o = Err THEN o ELSE Ok([i \in 1..Len(c.decls) |-> Reread(c.mode, c.decls[i].t, o[1][i])])
=============================================================================
