----------------------------------- MODULE MCFn -----------------------------------
(* All ways to build a few functions from small pieces; the laws of the model itself.  *)
EXTENDS Fn, Json
CONSTANTS Depth, Emit
VARIABLES st, h
vars == <<st, h>>
Cand(s) == LET n == Len(s) IN
  {[op |-> "poly", c |-> c] : c \in {<<1>>, <<0, 1>>, <<-1, 2, 1>>}}
  \cup {[op |-> "ad", c |-> <<1, 1>>]}
  \cup {[op |-> "lin", x |-> d[1], y |-> d[2], ext |-> b, ds |-> b] : b \in {0, 1}, d \in {<<<<-1, 1>>, <<1, 3>>>>, <<<<-2, 0, 0, 2>>, <<0, 2, -1, 1>>>>}}
  \cup {[op |-> "lin", x |-> <<1, 2, 3>>, y |-> <<0, 1, 0>>, ext |-> 0, ds |-> 0]}
  \cup (IF n = 0 THEN {} ELSE
     {[op |-> "mul", a |-> n, b |-> j] : j \in 1..n}
     \cup {[op |-> "mul", a |-> j, b |-> n] : j \in 1..(n - 1)}
     \cup {[op |-> "pw", k |-> <<-2, 1>>, f |-> <<n>>, sh |-> 0]}
     \cup {[op |-> "pw", k |-> <<-3, 0, 1>>, f |-> <<j, n>>, sh |-> 1] : j \in 1..n})
Init == st = Empty /\ h = <<>>
RECURSIVE Deg(_)
Deg(f) == IF f.t \in {"poly", "ad"} THEN Len(f.c) ELSE IF f.t = "prod" THEN Deg(f.a) + Deg(f.b) ELSE
          CHOOSE d \in {Deg(f.f[i]) : i \in 1..Len(f.f)} : \A i \in 1..Len(f.f) : Deg(f.f[i]) <= d
\* the last step must use the one before: otherwise it could be left out
Next == /\ Len(h) < Depth
        /\ \E e \in Cand(st) :
             /\ st' = Apply(st, e).s
             /\ Deg(Last1(st')) <= 5
             /\ (Len(h) = Depth - 1) => e.op \in {"mul", "pw"}
             /\ h' = Append(h, e)
Spec == Init /\ [][Next]_vars
Pts == {-5, -1, 0, 2, 4}
Top == Last1(st)
Additive == st # <<>> => \A p, q \in Pts :
   /\ IntOk(Top, p, q) = IntOk(Top, q, p)
   /\ IntOk(Top, p, q) =>
        /\ Integral(Top, p, q) = RNeg(Integral(Top, q, p))
        /\ \A m \in {x \in Pts : p < x /\ x < q} : Integral(Top, p, q) = RAdd(Integral(Top, p, m), Integral(Top, m, q))
\* away from the knots there is one value, and a product has the product of its factors' values
ProductLaw == st # <<>> => \A q \in {-5, -1, 1, 3} :
   /\ Cardinality(Strict(Top, q)) = 1
   /\ Top.t = "prod" => \E x \in Strict(Top.a, q), y \in Strict(Top.b, q) : Strict(Top, q) = {RMul(x, y)}
PrintH == (Emit /\ Len(h) = Depth) => PrintT("GEN" \o ToJson(h))
==================================================================================
