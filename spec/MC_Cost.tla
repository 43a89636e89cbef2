------------------------------ MODULE MC_Cost ------------------------------
(* The cost model: programs grow line by line, expressions from a fixed pool.*)
(* A cost never depends on the state, reading a variable costs what writing  *)
(* out its definition would, and the parts add up.                           *)
EXTENDS Interp, BigInt, Json, IOUtils, TLC
Tier == IOEnv.TIER
Emit == IOEnv.PRINT = "1"
MaxLen == 2
A == <<"a">>
Bn == <<"b">>
Nm(n) == [op |-> "name", n |-> n]
Tx(w) == Parse(w).ast
Leaf == {Tx(<<"3","d","6">>), Tx(<<"4","d","6","k","3">>), Tx(<<"7">>), Nm(A), Nm(Bn)}
        \cup IF Tier = "quick" THEN {} ELSE {Tx(<<"4","d","6","d","1">>), Tx(<<"0","d","6">>), Tx(<<"d","[","1",",","1",",","2","]">>), Tx(<<"4","d","6","k","0">>)}
Pool == Leaf \cup {[op |-> "not", a |-> x] : x \in Leaf} \cup {[op |-> "abs", a |-> x] : x \in Leaf} \cup {[op |-> "par", a |-> x] : x \in Leaf}
        \cup {[op |-> "bin", o |-> o, l |-> x, r |-> y] : o \in {oPlus, oDiv, oEq}, x \in Leaf, y \in Leaf}
        \cup {[op |-> "mm", o |-> oMax, l |-> x, r |-> y] : x \in Leaf, y \in Leaf}
        \cup {[op |-> "not", a |-> [op |-> "not", a |-> x]] : x \in Leaf}
VARIABLES prog, k, defs, hc    \* hc: what each line's expression cost
vars == <<prog, k, defs, hc>>
Init == prog = <<>> /\ k = EmptyStore /\ defs = [x \in {} |-> 0] /\ hc = <<>>
Ok(x) == Reads(x) \subseteq DOMAIN k
\* the expression with every name replaced by its definition in brackets
RECURSIVE Inline(_)
Inline(x) == CASE x.op \in {"int", "dice"} -> x
               [] x.op = "name" -> [op |-> "par", a |-> defs[x.n]]
               [] x.op \in {"par", "not", "abs"} -> [op |-> x.op, a |-> Inline(x.a)]
               [] OTHER -> [op |-> x.op, o |-> x.o, l |-> Inline(x.l), r |-> Inline(x.r)]
Assign(n, x) == /\ Ok(x)
                /\ prog' = Append(prog, Show([op |-> "set", n |-> n, a |-> x]))
                /\ k' = PutIn(k, n, Cost(x, k))
                /\ defs' = PutIn(defs, n, Inline(x))
                /\ hc' = Append(hc, Cost(x, k))
                /\ ~Emit \/ PrintT("@@OPS " \o ToJson([hist |-> prog']))
Next == Len(prog) < MaxLen /\ \E n \in (IF Tier = "quick" \/ Len(prog) = 0 THEN {A} ELSE {A, Bn}), x \in (IF Len(prog) = 0 THEN Pool ELSE Leaf \cup {[op |-> "not", a |-> y] : y \in Leaf}) : Assign(n, x)
Spec == Init /\ [][Next]_vars
View == <<k, defs, hc>>

Asked == {x \in Pool : Ok(x)}
Inlined == \A x \in Asked : Cost(x, k) = Cost(Inline(x), EmptyStore)
\* the cost model for costs of any size is the same model
Sized == LET before == [i \in 1 .. Len(prog) |-> Parse(prog[i]).ast]
             sum == FoldLeft(LAMBDA s, c : s + 2 + c, 0, hc)
             big == [n \in DOMAIN k |-> BFrom(k[n])]
         IN \A x \in Asked : /\ BCost(x, big) = BFrom(Cost(x, k))
                              /\ BCostOf(Append(before, x)) = BFrom(sum + Cost(x, k))
Positive == \A x \in Asked : Cost(x, k) >= 0
Adds == \A x \in Asked : x.op \in {"bin", "mm"} => Cost(x, k) = Cost(x.l, k) + Cost(x.r, k)
\* the session machine agrees with the cost model, and stores nothing
Line(x) == [st |-> "ok", ast |-> x]
Sessions == \A x \in Asked \cap Leaf :
  LET ps == [i \in 1 .. Len(prog) + 1 |-> IF i <= Len(prog) THEN Parse(prog[i]) ELSE Line(x)]
      R == RunCall("cost", ps, Fresh, FALSE, FALSE, Anything(ps))
  IN \A r \in R : r.err = "" /\ Leave(r) = Fresh
                  /\ RunCall("cost", ps, [Fresh EXCEPT !.c = [n \in {A, Bn} |-> 99]], FALSE, FALSE, Anything(ps)) = {[r EXCEPT !.c = [n \in {A, Bn} |-> 99]]}
=============================================================================
