------------------------------- MODULE Interp -------------------------------
(* An interpreter as a state machine.  Its state is                          *)
(*   c  the value store: name -> number                                      *)
(*   j  the distribution store: the joint law of all its variables           *)
(*   h  the assignments made in the distribution store so far                *)
(* One action is one call: a query kind and a list of lines.  A call may     *)
(* have several outcomes (rolls), so it maps a state to a set of results.    *)
EXTENDS DiceLaw
LOCAL INSTANCE TLC

Fresh == [c |-> EmptyStore, j |-> SureStore, h |-> <<>>]
ValueQueries == {"roll", "min", "max"}
LawQueries == {"dist", "dict", "avg", "hist"}

STDOUT == <<"s", "t", "d", "o", "u", "t">>

RECURSIVE HasDiv(_)
HasDiv(a) == CASE a.op \in {"int", "dice", "name"} -> FALSE
               [] a.op \in {"par", "set", "not", "abs"} -> HasDiv(a.a)
               [] OTHER -> a.o = oDiv \/ HasDiv(a.l) \/ HasDiv(a.r)

Miss(a) == {"KeyError"} \cup (IF HasDiv(a) THEN {"ZeroDivisionError"} ELSE {})

\* the errors a probability query of a may raise; none: it succeeds
LawErrors(a, j) ==
  LET e == IF a.op = "set" THEN a.a ELSE a IN
  IF ~(Reads(e) \subseteq Known(j)) THEN Miss(e)
  ELSE IF ZeroJ(e, j) THEN {"ZeroDivisionError"} ELSE {}

(* min and max queries: a name standing alone, in brackets or in MIN and MAX *)
(* is looked up in the value store, everything else is computed from laws    *)
RECURSIVE BareNames(_), CompNames(_), ZeroExt(_, _)
BareNames(a) == CASE a.op = "name" -> {a.n}
                  [] a.op = "par" -> BareNames(a.a)
                  [] a.op = "mm" -> BareNames(a.l) \cup BareNames(a.r)
                  [] OTHER -> {}
CompNames(a) == CASE a.op \in {"name", "int", "dice"} -> {}
                  [] a.op = "par" -> CompNames(a.a)
                  [] a.op = "mm" -> CompNames(a.l) \cup CompNames(a.r)
                  [] OTHER -> Reads(a)
ZeroExt(a, j) == CASE a.op \in {"name", "int", "dice"} -> FALSE
                   [] a.op = "par" -> ZeroExt(a.a, j)
                   [] a.op = "mm" -> ZeroExt(a.l, j) \/ ZeroExt(a.r, j)
                   [] OTHER -> ZeroJ(a, j)
ExtErrors(a, c, j) ==
  LET e == IF a.op = "set" THEN a.a ELSE a IN
  IF \/ ~(BareNames(e) \subseteq DOMAIN c)
     \/ ~((IF a.op = "set" THEN Reads(e) ELSE CompNames(e)) \subseteq Known(j)) THEN Miss(e)
  ELSE IF ZeroExt(e, j) \/ (a.op = "set" /\ ZeroJ(e, j)) THEN {"ZeroDivisionError"} ELSE {}

End(q, S) == IF q = "max" THEN Hi(S) ELSE Lo(S)
RECURSIVE Ext(_, _, _, _)
Ext(a, q, c, j) ==
  CASE a.op = "int"  -> a.v
    [] a.op = "dice" -> IF q = "max" THEN LitMax(a.lit) ELSE LitMin(a.lit)
    [] a.op = "name" -> c[a.n]
    [] a.op \in {"par", "set"} -> Ext(a.a, q, c, j)
    [] a.op = "mm"   -> Apply(a.o, Ext(a.l, q, c, j), Ext(a.r, q, c, j))
    [] OTHER -> End(q, SuppJ(a, j))
\* the exact end of what can be rolled
Tight(a, q, j) == End(q, SuppJ(a, j))

-----------------------------------------------------------------------------
(* results: a state plus out (value, law or cost of the last line), err (the *)
(* class of the error that ended the call, "" if none), k (costs of the      *)
(* definitions made in this call)                                            *)
Begin(s) == [c |-> s.c, j |-> s.j, h |-> s.h, out |-> 0, err |-> "", k |-> EmptyStore]
Leave(r) == [c |-> r.c, j |-> r.j, h |-> r.h]
Fail(r, E) == {[r EXCEPT !.err = e] : e \in E}

\* ok: the thinkable values, {} for no restriction (prunes rolls whose result is known)
RollLine(a, r, k3, ok) ==
  {IF x[1] = 0
   THEN IF a.op = "set" THEN [r EXCEPT !.c = PutIn(@, a.n, x[2]), !.out = x[2]]
                        ELSE [r EXCEPT !.out = x[2]]
   ELSE [r EXCEPT !.err = IF x[1] = 1 THEN "ZeroDivisionError" ELSE "KeyError"] :
     x \in {y \in RollSet(a, r.c, k3) : y[1] # 0 \/ ok = {} \/ y[2] \in ok}}

LawLine(a, r) ==
  LET E == LawErrors(a, r.j) IN
  IF E # {} THEN Fail(r, E)
  ELSE {IF a.op = "set"
        THEN [r EXCEPT !.j = AssignJ(a.n, a.a, @), !.h = Append(@, <<a.n, a.a>>), !.out = LawJ(a.a, r.j)]
        ELSE [r EXCEPT !.out = LawJ(a, r.j)]}

ExtLine(q, a, r) ==
  LET E == ExtErrors(a, r.c, r.j) IN
  IF E # {} THEN Fail(r, E)
  ELSE LET v == Ext(a, q, r.c, r.j) IN
       {IF a.op = "set"
        THEN [r EXCEPT !.c = PutIn(@, a.n, v), !.j = AssignJ(a.n, a.a, @),
                       !.h = Append(@, <<a.n, a.a>>), !.out = v]
        ELSE [r EXCEPT !.out = v]}

(* Known finding K4 (leak): a cost query stores the cost of a definition as  *)
(* the variable's value, and reads values as costs.                          *)
CostLine(a, r, leak) ==
  LET e == IF a.op = "set" THEN a.a ELSE a
      known == IF leak THEN r.c ELSE r.k
  IN IF ~(Reads(e) \subseteq DOMAIN known) THEN Fail(r, {"KeyError"})
     ELSE LET v == Cost(a, known) IN
          {IF a.op = "set"
           THEN [r EXCEPT !.k = PutIn(@, a.n, Cost(e, known)), !.out = @ + v,
                          !.c = IF leak THEN PutIn(@, a.n, Cost(e, known)) ELSE @]
           ELSE [r EXCEPT !.out = @ + v]}

LineStep(q, p, r, k3, leak, ok) ==
  IF r.err # "" THEN {r}
  ELSE IF p.st # "ok" THEN Fail(r, {"ValueError"})
  ELSE CASE q = "roll" -> RollLine(p.ast, r, k3, ok)
         [] q \in {"min", "max"} -> ExtLine(q, p.ast, r)
         [] q \in LawQueries -> LawLine(p.ast, r)
         [] q = "cost" -> CostLine(p.ast, r, leak)

\* ps: the parsed lines; ok[k]: the thinkable values of line k
RECURSIVE RunFrom(_, _, _, _, _, _, _)
RunFrom(q, ps, k, R, k3, leak, ok) ==
  IF k > Len(ps) THEN R
  ELSE RunFrom(q, ps, k + 1, UNION {LineStep(q, ps[k], r, k3, leak, ok[k]) : r \in R}, k3, leak, ok)
RunCall(q, ps, s, k3, leak, ok) == RunFrom(q, ps, 1, {Begin(s)}, k3, leak, ok)
Anything(ps) == [k \in DOMAIN ps |-> {}]
=============================================================================
