---------------------------- MODULE MznBigCheck ----------------------------
(* Recorded evaluations against MznBig.  A case is [kind, e, obs]:
     "val":  obs = [ok |-> TRUE, v |-> integer] or [ok |-> FALSE] (an error was reported)
     "lb", "ub": the reported bound of e, or [ok |-> FALSE] (an error, or no bound) *)
EXTENDS MznBig, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, done
Num(o) == Mk(o.v.s, o.v.d)
Judge(x) ==
  CASE x.kind = "val" -> LET r == Ev(x.e)
                         IN  IF x.obs.ok THEN ~r.und /\ r.v = Num(x.obs)       \* exact ...
                             ELSE r.und \/ ~r.safe                              \* ... or reported
    [] x.kind = "lb" -> ~x.obs.ok \/ Le(Num(x.obs), Bnd(x.e)[1])
    [] x.kind = "ub" -> ~x.obs.ok \/ Le(Bnd(x.e)[2], Num(x.obs))
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT(<<"@", IF Judge(Cases[c]) THEN "ACC" ELSE "REJ", c>>)
Spec == Init /\ [][Next]_<<c, done>>
\* laws of the arithmetic itself, over a sample of operands around every digit and word boundary
Sample == {Of(x) : x \in {0, 1, -1, 7, 9999, 10000, -10001}} \cup {P2(31), Neg(P2(31)), P2(62), Max64, Min64, Add(Max64, One)}
Laws == \A x, y \in Sample :
          /\ Add(Sub(x, y), y) = x /\ Mul(x, y) = Mul(y, x) /\ Sub(x, y) = Neg(Sub(y, x))
          /\ (y # Zero => Add(Mul(Quot(x, y), y), Rem(x, y)) = x /\ Lt(AbsB(Rem(x, y)), AbsB(y)))
          /\ (Le(x, y) \/ Lt(y, x)) /\ \A z \in Sample : Mul(x, Add(y, z)) = Add(Mul(x, y), Mul(x, z))
ASSUME Laws
=============================================================================
