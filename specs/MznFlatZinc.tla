--------------------------- MODULE MznFlatZinc ---------------------------
(* A reader of FlatZinc: it takes the items of a compiled model one at a time
   and refuses the first that the FlatZinc standard does not allow there.

   type  [a : array, v : variable, t : "i" "b" "f" "s" "sf"]
   expr  [e |-> "i" | "b" | "f" | "s" | "sf" | "x" (other)]  literals
         [e |-> "id", n], [e |-> "arr", a : sequence of expr]
   item  [k |-> "pred", n, ps : sequence of type codes]
         [k |-> "decl", n, ty, rhs : sequence of at most one expr,
                defd : has is_defined_var, out : sequence of dimension lengths of output_array, outv, refs]
         [k |-> "con", n, args, defs : names in defines_var, refs]
         [k |-> "solve", goal, obj : sequence of at most one expr, refs]
   refs are the names of variables used in annotations.
   A defines_var annotation counts if its variable is marked is_defined_var.  *)
EXTENDS Naturals, Sequences, FiniteSets, MznFlatZincSigs

Fresh == [phase |-> 0,                \* 0 predicates, 1 declarations, 2 constraints, 3 ended
          preds |-> [x \in {} |-> <<>>],
          decl |-> [x \in {} |-> 0],  \* name -> [ty, el : names of its elements]
          defd |-> {},                \* variables marked as defined
          by |-> [x \in {} |-> {}],   \* defined variable -> variables of its definition
          err |-> ""]

Bad(st, m) == [st EXCEPT !.err = m]
Bind(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Range(s) == {s[i] : i \in 1..Len(s)}

Code(a, v, t) == (IF a THEN "a" ELSE "") \o (IF v THEN "v" ELSE "") \o t

(* An expression fits a parameter; a fixed value fits a variable. *)
FitsElem(st, x, v, t) ==
  CASE x.e = "id" -> /\ x.n \in DOMAIN st.decl
                     /\ LET ty == st.decl[x.n].ty IN ~ty.a /\ ty.t = t /\ (ty.v => v)
    [] x.e = "arr" -> FALSE
    [] OTHER -> x.e = t
Fits(st, x, ty) ==
  CASE ~ty.a -> FitsElem(st, x, ty.v, ty.t)
    [] x.e = "id" -> /\ x.n \in DOMAIN st.decl
                     /\ LET d == st.decl[x.n].ty IN d.a /\ d.t = ty.t /\ (d.v => ty.v)
    [] x.e = "arr" -> \A i \in 1..Len(x.a) : FitsElem(st, x.a[i], ty.v, ty.t)
    [] OTHER -> FALSE

Types == [a : BOOLEAN, v : BOOLEAN, t : {"i", "b", "f", "s", "sf"}]
TypeOf(code) == CHOOSE ty \in Types : Code(ty.a, ty.v, ty.t) = code

Names(x) == CASE x.e = "id" -> {x.n}
              [] x.e = "arr" -> {x.a[i].n : i \in {j \in 1..Len(x.a) : x.a[j].e = "id"}}
              [] OTHER -> {}
(* the variables an expression stands for: named arrays stand for their elements *)
Vars(st, x) == UNION {LET d == st.decl[n] IN IF d.ty.a THEN d.el ELSE IF d.ty.v THEN {n} ELSE {} : n \in Names(x)}

Product(s) == LET RECURSIVE P(_) P(i) == IF i > Len(s) THEN 1 ELSE s[i] * P(i + 1) IN P(1)

RECURSIVE Acyclic(_, _)
Acyclic(by, S) == LET free == {v \in S : by[v] \cap S = {}}
                  IN IF S = {} THEN TRUE ELSE IF free = {} THEN FALSE ELSE Acyclic(by, S \ free)

Undeclared(st, refs) == Range(refs) \ DOMAIN st.decl

Take(st, it) ==
  CASE st.err # "" -> st
    [] st.phase = 3 -> Bad(st, "an item after the solve item")
    [] it.k = "pred" ->
         IF st.phase > 0 THEN Bad(st, "a predicate after other items")
         ELSE IF it.n \in DOMAIN st.preds THEN Bad(st, "predicate declared twice")
         ELSE [st EXCEPT !.preds = Bind(@, it.n, it.ps)]
    [] it.k = "decl" ->
         LET r == it.rhs
         IN CASE st.phase > 1 -> Bad(st, "a declaration after a constraint")
              [] it.n \in DOMAIN st.decl -> Bad(st, "declared twice")
              [] r = <<>> /\ ~(it.ty.v /\ ~it.ty.a) -> Bad(st, "no value")
              [] r # <<>> /\ ~Fits(st, r[1], it.ty) -> Bad(st, "the value is undeclared or of another type")
              [] it.len >= 0 /\ r # <<>> /\ r[1].e = "arr" /\ Len(r[1].a) # it.len -> Bad(st, "array length")
              [] it.out # <<>> /\ Product(it.out) # it.len -> Bad(st, "output_array does not match the array")
              [] Undeclared(st, it.refs) # {} -> Bad(st, "an annotation names an undeclared variable")
              [] OTHER ->
                   [st EXCEPT !.phase = 1,
                              !.decl = Bind(@, it.n, [ty |-> it.ty,
                                 el |-> IF ~it.ty.a \/ r = <<>> THEN {}
                                        ELSE IF r[1].e = "arr" THEN {n \in Names(r[1]) : st.decl[n].ty.v} ELSE st.decl[r[1].n].el]),
                              !.defd = IF it.defd /\ r = <<>> THEN @ \cup {it.n} ELSE @]
    [] it.k = "con" ->
         LET known == it.n \in DOMAIN st.preds \/ it.n \in DOMAIN Standard
             sig == IF it.n \in DOMAIN st.preds THEN st.preds[it.n] ELSE Standard[it.n]
         IN CASE ~known -> Bad(st, "no such constraint")
              [] Len(sig) # Len(it.args) -> Bad(st, "number of arguments")
              [] \E i \in 1..Len(sig) : ~Fits(st, it.args[i], TypeOf(sig[i])) -> Bad(st, "an argument is undeclared or of another type")
              [] Undeclared(st, it.refs \o it.defs) # {} -> Bad(st, "an annotation names an undeclared variable")
              [] Len(it.defs) > 1 -> Bad(st, "defines two variables")
              [] \E n \in Range(it.defs) : n \in DOMAIN st.by -> Bad(st, "a variable is defined twice")
              [] OTHER ->
                   LET vs == UNION {Vars(st, it.args[i]) : i \in 1..Len(it.args)}
                   IN IF \E n \in Range(it.defs) : n \notin vs THEN Bad(st, "defines a variable that it does not mention")
                      ELSE [st EXCEPT !.phase = 2,
                                      !.by = IF it.defs = <<>> \/ it.defs[1] \notin st.defd THEN @ ELSE Bind(@, it.defs[1], vs \ {it.defs[1]})]
    [] it.k = "solve" ->
         CASE Undeclared(st, it.refs) # {} -> Bad(st, "the search annotation names an undeclared variable")
           [] (it.goal = "satisfy") # (it.obj = <<>>) -> Bad(st, "objective")
           [] it.obj # <<>> /\ ~FitsElem(st, it.obj[1], TRUE, "i") /\ ~FitsElem(st, it.obj[1], TRUE, "f") -> Bad(st, "the objective is not a number")
           [] st.defd # DOMAIN st.by -> Bad(st, "a variable marked as defined has no definition")
           [] ~Acyclic(st.by, DOMAIN st.by) -> Bad(st, "definitions are cyclic")
           [] OTHER -> [st EXCEPT !.phase = 3]

Done(st) == IF st.err = "" /\ st.phase # 3 THEN Bad(st, "no solve item") ELSE st
=============================================================================
