-------------------------------- MODULE Nest --------------------------------
EXTENDS Interp
(* Assignments inside expressions: each is made where it stands and its value *)
(* is the variable's.  Known finding K8 (copy): the value is a second roll of *)
(* the same expression.  Only names not read in the same line.                *)
RECURSIVE Taken(_, _)
Taken(a, copy) ==   \* <<the assignments inside a, in order, what is left of a>>
  CASE a.op \in {"int", "dice", "name"} -> <<<<>>, a>>
    [] a.op = "set" -> LET u == Taken(a.a, copy) IN
                       <<Append(u[1], [a EXCEPT !.a = u[2]]), IF copy THEN [op |-> "par", a |-> u[2]] ELSE [op |-> "name", n |-> a.n]>>
    [] a.op \in {"par", "not", "abs"} -> LET u == Taken(a.a, copy) IN <<u[1], [a EXCEPT !.a = u[2]]>>
    [] OTHER -> LET u == Taken(a.l, copy)
                    v == Taken(a.r, copy) IN <<u[1] \o v[1], [a EXCEPT !.l = u[2], !.r = v[2]]>>
Unnest(a, copy) ==
  LET u == Taken(IF a.op = "set" THEN a.a ELSE a, copy)
      s == Append(u[1], IF a.op = "set" THEN [a EXCEPT !.a = u[2]] ELSE u[2])
  IN [k \in DOMAIN s |-> [st |-> "ok", ast |-> s[k]]]
Flat(as, copy) == FoldLeft(LAMBDA acc, a : acc \o Unnest(a, copy), <<>>, as)

(* The same programs in min and max queries.  Known finding K10: assignments  *)
(* inside a computation give the name no value, only a distribution.          *)
RECURSIVE Sets(_), Hidden(_, _)
Sets(a) ==
  CASE a.op \in {"int", "dice", "name"} -> {}
    [] a.op = "set" -> {a} \cup Sets(a.a)
    [] a.op \in {"par", "not", "abs"} -> Sets(a.a)
    [] OTHER -> Sets(a.l) \cup Sets(a.r)
Hidden(a, inside) ==   \* the names assigned inside computations
  CASE a.op \in {"int", "dice", "name"} -> {}
    [] a.op = "set" -> (IF inside THEN {a.n} ELSE {}) \cup Hidden(a.a, inside)
    [] a.op = "par" -> Hidden(a.a, inside)
    [] a.op \in {"not", "abs"} -> Hidden(a.a, TRUE)
    [] a.op = "mm" -> Hidden(a.l, inside) \cup Hidden(a.r, inside)
    [] OTHER -> Hidden(a.l, TRUE) \cup Hidden(a.r, TRUE)
RECURSIVE Alone(_)
Alone(a) ==   \* the names such a query reads from the value store
  CASE a.op = "name" -> {a.n}
    [] a.op \in {"par", "set"} -> Alone(a.a)
    [] a.op = "mm" -> Alone(a.l) \cup Alone(a.r)
    [] OTHER -> {}

(* the cost of such a program *)
NestCost(as) ==
  FoldLeft(LAMBDA acc, a : <<acc[1] + Cost(a, acc[2]), FoldSet(LAMBDA x, c : PutIn(c, x.n, Cost(x.a, acc[2])), acc[2], Sets(a))>>,
           <<0, EmptyStore>>, as)[1]
=============================================================================
