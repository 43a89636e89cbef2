------------------------------ MODULE MC_Nest ------------------------------
(* Programs with assignments inside expressions.  Their meaning is given     *)
(* directly - every die falls once, the lines are evaluated in order, and an *)
(* assignment stores its value where it stands and is worth it - and related *)
(* to the flat programs the trace checker works with.                        *)
EXTENDS Nest, Json, IOUtils, TLC

Tier == IOEnv.TIER
Emit == IOEnv.PRINT = "1"
A == <<"a">>
Bn == <<"b">>
Cn == <<"c">>
Names == {A, Bn, Cn}
Nm(n) == [op |-> "name", n |-> n]
Set(n, e) == [op |-> "set", n |-> n, a |-> e]
Par(e) == [op |-> "par", a |-> e]
Bin(o, l, r) == [op |-> "bin", o |-> o, l |-> l, r |-> r]
MM(o, l, r) == [op |-> "mm", o |-> o, l |-> l, r |-> r]
Die(w) == Parse(w).ast
d2 == Die(<<"d", "2">>)
dF == Die(<<"d", "F">>)
s2 == Die(<<"2", "d", "2">>)
c1 == Die(<<"1">>)
Base == IF Tier = "quick" THEN {d2, dF} ELSE {d2, dF, s2}
Reading == Base \cup {Bin(oPlus, Nm(n), d2) : n \in Names} \cup {Nm(n) : n \in Names}

Inner == {Par(Set(n, x)) : n \in Names, x \in Base}
Ops == IF Tier = "quick" THEN {oMinus, oEq} ELSE {oMinus, oTimes, oEq, oAnd}
Mixed == {Bin(o, x, y) : o \in Ops, x \in Inner, y \in Inner \cup {d2}}
         \cup {Bin(oMinus, c1, x) : x \in Inner}
         \cup {MM(o, x.a, y) : o \in {oMax, oMin}, x \in Inner, y \in {c1, dF}}
         \cup {[op |-> "not", a |-> x] : x \in Inner} \cup {[op |-> "abs", a |-> x] : x \in Inner}
         \cup {x.a : x \in Inner}
Menu == Mixed \cup {Set(n, x) : n \in Names, x \in Mixed \cup Reading}
        \cup {Bin(oPlus, x, Nm(n)) : x \in Inner, n \in Names}
RECURSIVE SetNames(_)
SetNames(a) ==   \* with repetition
  CASE a.op \in {"int", "dice", "name"} -> <<>>
    [] a.op = "set" -> <<a.n>> \o SetNames(a.a)
    [] a.op \in {"par", "not", "abs"} -> SetNames(a.a)
    [] OTHER -> SetNames(a.l) \o SetNames(a.r)
RECURSIVE AllReads(_)
AllReads(a) ==
  CASE a.op \in {"int", "dice"} -> {}
    [] a.op = "name" -> {a.n}
    [] a.op \in {"par", "not", "abs", "set"} -> AllReads(a.a)
    [] OTHER -> AllReads(a.l) \cup AllReads(a.r)
SeqSet(x) == {x[k] : k \in DOMAIN x}
Clear(a) == Len(SetNames(a)) = Cardinality(SeqSet(SetNames(a))) /\ SeqSet(SetNames(a)) \cap AllReads(a) = {}
Sound == {a \in Menu : Clear(a) /\ SetNames(a) # <<>>}

VARIABLES prog, known, calm   \* calm: no name assigned twice
vars == <<prog, known, calm>>
Init == prog = <<>> /\ known = {} /\ calm = TRUE
Next == /\ Len(prog) < 2
        /\ \E a \in Sound :
             /\ AllReads(a) \subseteq known
             /\ IF prog = <<>> THEN TRUE ELSE Len(SetNames(a)) <= 1 /\ Len(SetNames(prog[1])) <= (IF Tier = "quick" THEN 1 ELSE 2)
             /\ prog' = Append(prog, a)
             /\ known' = known \cup SeqSet(SetNames(a))
             /\ calm' = (calm /\ SeqSet(SetNames(a)) \cap known = {})
             /\ IF Emit THEN PrintT("@@OPS " \o ToJson([prog |-> [k \in DOMAIN prog' |-> Show(prog'[k])], names |-> known', calm |-> calm'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* every way every die can fall *)
RECURSIVE DiceOf(_), Fall(_), Eval(_, _, _)
DiceOf(e) ==
  CASE e.op \in {"int", "name"} -> <<>>
    [] e.op = "dice" -> [k \in 1 .. e.lit.n |-> DOMAIN e.lit.sides]
    [] e.op \in {"par", "not", "abs", "set"} -> DiceOf(e.a)
    [] OTHER -> DiceOf(e.l) \o DiceOf(e.r)
Fall(slots) == IF slots = <<>> THEN {<<>>} ELSE {<<v>> \o w : v \in slots[1], w \in Fall(Tail(slots))}
SumTo(w, n) == FoldLeft(LAMBDA acc, k : acc + w[k], 0, [k \in 1 .. n |-> k])
Eval(e, s, w) ==   \* <<value, store, dice not yet used>>
  CASE e.op = "int"  -> <<e.v, s, w>>
    [] e.op = "name" -> <<s[e.n], s, w>>
    [] e.op = "dice" -> <<SumTo(w, e.lit.n), s, SubSeq(w, e.lit.n + 1, Len(w))>>
    [] e.op = "par"  -> Eval(e.a, s, w)
    [] e.op = "set"  -> LET x == Eval(e.a, s, w) IN <<x[1], PutIn(x[2], e.n, x[1]), x[3]>>
    [] e.op = "not"  -> LET x == Eval(e.a, s, w) IN <<Not(x[1]), x[2], x[3]>>
    [] e.op = "abs"  -> LET x == Eval(e.a, s, w) IN <<Abs(x[1]), x[2], x[3]>>
    [] OTHER -> LET x == Eval(e.l, s, w)
                    y == Eval(e.r, x[2], x[3])
                IN <<Apply(e.o, x[1], y[1]), y[2], y[3]>>
Play(w) == FoldLeft(LAMBDA acc, a : Eval(a, acc[2], acc[3]), <<0, EmptyStore, w>>, prog)
Ended ==   \* <<last value, store>> with the number of worlds
  LET F == Fall(FoldLeft(LAMBDA acc, a : acc \o DiceOf(a), <<>>, prog))
      end == TLCEval([w \in F |-> <<Play(w)[1], Play(w)[2]>>])
  IN [x \in {end[w] : w \in F} |-> BFrom(Cardinality({w \in F : end[w] = x}))]
Flattened(copy) == RunCall("dist", Flat(prog, copy), Fresh, FALSE, FALSE, Anything(Flat(prog, copy)))
R(copy) == CHOOSE r \in Flattened(copy) : TRUE


\* the variables together, and the value of the last line together with all of them
Meaning == prog # <<>> =>
  LET E == Ended
      f == Flat(prog, FALSE)
      last == f[Len(f)].ast
      r == R(FALSE)
  IN /\ Cardinality(Flattened(FALSE)) = 1 /\ r.err = ""
     /\ SameLaw(MapLaw(LAMBDA x : x[2], E), r.j)
     /\ SameLaw(MapLaw(LAMBDA x : x[1], E), r.out)
     /\ last.op = "set" => \A x \in DOMAIN E : x[1] = x[2][last.n]
\* what known finding K8 leaves intact: each variable and the last line by itself, as long as nothing is read back
Apart == prog # <<>> /\ Len(prog) = 1 =>
  LET r == R(FALSE)
      k == R(TRUE)
  IN SameLaw(r.out, k.out) /\ \A n \in known : SameLaw(Marginal(r.j, n), Marginal(k.j, n))
\* rolls: exactly the stores and last values that can come about
RollsAgree == prog # <<>> =>
  LET f == Flat(prog, FALSE)
      S == RunCall("roll", f, Fresh, FALSE, FALSE, Anything(f))
  IN {<<r.out, r.c>> : r \in S} = DOMAIN Ended
\* the assignments a line makes; hidden ones are among them
Listed == \A k \in DOMAIN prog : /\ {x.n : x \in Sets(prog[k])} = SeqSet(SetNames(prog[k]))
                                 /\ Hidden(prog[k], FALSE) \subseteq SeqSet(SetNames(prog[k]))
                                 /\ Hidden(prog[k], TRUE) = SeqSet(SetNames(prog[k]))
\* a nested assignment costs 2 more than what it assigns, wherever it stands
RECURSIVE Bare(_)
Bare(e) == CASE e.op \in {"int", "dice", "name"} -> e
             [] e.op = "set" -> Bare(e.a)
             [] e.op \in {"par", "not", "abs"} -> [e EXCEPT !.a = Bare(@)]
             [] OTHER -> [e EXCEPT !.l = Bare(@), !.r = Bare(@)]
RECURSIVE HasNot(_)
HasNot(e) == CASE e.op \in {"int", "dice", "name"} -> FALSE
               [] e.op \in {"par", "abs", "set"} -> HasNot(e.a)
               [] e.op = "not" -> TRUE
               [] OTHER -> HasNot(e.l) \/ HasNot(e.r)
Costs == Len(prog) = 1 /\ ~HasNot(prog[1]) => NestCost(prog) = Cost(Bare(prog[1]), EmptyStore) + 2 * Len(SetNames(prog[1]))
=============================================================================
