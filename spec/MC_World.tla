------------------------------ MODULE MC_World ------------------------------
(* Every short program over two names: assignments as actions, every final   *)
(* expression asked in every state.  Relates the five readings of a program: *)
(*   the true law (each assignment rolled once, LawJ), the implementation's  *)
(*   product rule over consistent outcomes (PLaw), the bounds query (Ext),   *)
(*   what a roll can give (RollSet) and the zero-divisor test (ZeroJ).       *)
(* Prints every transition; the programs are then run on the real code.      *)
EXTENDS Interp, Json, IOUtils, TLC

Tier == IOEnv.TIER
Emit == IOEnv.PRINT = "1"
A == <<"a">>
Bn == <<"b">>
Nm(n) == [op |-> "name", n |-> n]
Die(w) == Parse(w).ast
Bin(o, l, r) == [op |-> "bin", o |-> o, l |-> l, r |-> r]
MM(o, l, r) == [op |-> "mm", o |-> o, l |-> l, r |-> r]
d2 == Die(<<"d", "2">>)
s2 == Die(<<"2", "d", "2">>)
d01 == Die(<<"d", "[", "0", ",", "1", "]">>)
dF == Die(<<"d", "F">>)
c1 == Die(<<"1">>)
c2 == Die(<<"2">>)
cm1 == Die(<<"-", "1">>)
a == Nm(A)
b == Nm(Bn)

\* TIER: quick, deep (longer programs), wide (more expressions)
Rights == IF Tier # "wide"
  THEN {d2, s2, dF, a, Bin(oMinus, c2, a), Bin(oPlus, a, d2), Bin(oPlus, a, b), Bin(oTimes, a, b)}
  ELSE {d2, s2, dF, c2, a, b, Bin(oMinus, c2, a), Bin(oPlus, a, d2), Bin(oPlus, a, b), Bin(oTimes, a, b), Bin(oMinus, a, b),
        Bin(oTimes, b, b), MM(oMax, a, c1), Bin(oGt, a, c1), [op |-> "not", a |-> b], [op |-> "abs", a |-> Bin(oMinus, a, d2)],
        Bin(oEq, a, b), Bin(oAnd, a, b)}
MaxLen == IF Tier = "deep" THEN 4 ELSE IF Tier = "wide" THEN 3 ELSE 2
Leaves == {a, b, c1, d2}
Ops2 == IF Tier # "wide" THEN {oPlus, oMinus, oTimes, oDiv, oEq, oAnd} ELSE Operators \ {oMax, oMin}
Finals == Leaves \cup {dF}
          \cup {Bin(o, x, y) : o \in Ops2, x \in Leaves, y \in Leaves}
          \cup {MM(o, x, y) : o \in {oMax, oMin}, x \in {a, b, c1, Bin(oMinus, c2, a)}, y \in {a, b, d2}}
          \cup {[op |-> "not", a |-> x] : x \in {a, b, d01, Bin(oEq, a, b)}}
          \cup {[op |-> "abs", a |-> x] : x \in {a, Bin(oMinus, a, b)}}
          \cup {Bin(oDiv, c2, [op |-> "par", a |-> Bin(o, x, y)]) : o \in {oMinus, oPlus, oTimes, oEq}, x \in {a, b}, y \in {a, b}}
          \cup {Bin(oPlus, [op |-> "par", a |-> Bin(oOr, a, b)], Bin(oTimes, a, b)),
                Bin(oMinus, Bin(oMinus, a, b), [op |-> "par", a |-> Bin(oMinus, a, b)])}

VARIABLES hist,   \* the assignments: <<name, expression>>
          j,      \* the law of the variables
          pv,     \* the implementation's distribution store
          lo, hi  \* the value stores of a min and of a max query
vars == <<hist, j, pv, lo, hi>>

Line(h) == Show([op |-> "set", n |-> h[1], a |-> h[2]])
Usable(e) == Reads(e) \subseteq Known(j)

Init == /\ ~Emit \/ PrintT("@@FINALS " \o ToJson({Show(e) : e \in Finals}))
        /\ hist = <<>> /\ j = SureStore /\ pv = [x \in {} |-> 0] /\ lo = EmptyStore /\ hi = EmptyStore
Assign(n, e) ==
  /\ Usable(e)
  /\ hist' = Append(hist, <<n, e>>)
  /\ j' = AssignJ(n, e, j)
  /\ pv' = PutIn(pv, n, PTag(PLaw(e, pv), Len(hist) + 1))
  /\ lo' = PutIn(lo, n, Ext(e, "min", lo, j))
  /\ hi' = PutIn(hi, n, Ext(e, "max", hi, j))
  /\ ~Emit \/ PrintT("@@OPS " \o ToJson([hist |-> [k \in DOMAIN hist' |-> Line(hist'[k])]]))
Next == Len(hist) < MaxLen /\ \E n \in {A, Bn}, e \in Rights : Assign(n, e)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Asked == {e \in Finals : Usable(e)}
Whole == {e \in Asked : ~ZeroJ(e, j)}

(* how often each roll is used: versions behind a name *)
RECURSIVE Uses(_)
Uses(e) ==   \* sequence of names read
  CASE e.op \in {"int", "dice"} -> <<>>
    [] e.op = "name" -> <<e.n>>
    [] e.op \in {"par", "not", "abs"} -> Uses(e.a)
    [] OTHER -> Uses(e.l) \o Uses(e.r)
RECURSIVE Rolls(_, _)
\* the versions a name stands for after the first k assignments, with repetition
Latest(n, k) == LET S == {i \in 1 .. k : hist[i][1] = n} IN CHOOSE i \in S : \A m \in S : m <= i
RECURSIVE FlatRolls(_, _)
FlatRolls(us, k) == IF us = <<>> THEN <<>> ELSE Rolls(Latest(us[1], k), k) \o FlatRolls(Tail(us), k)
Rolls(v, k) == <<v>> \o FlatRolls(Uses(hist[v][2]), v - 1)
ReadOnce(e) == LET rs == FlatRolls(Uses(e), Len(hist)) IN \A x, y \in DOMAIN rs : rs[x] = rs[y] => x = y

\* C04: the product rule never loses or invents an outcome, and is exact when no roll is used twice
SupportAgrees == \A e \in Whole : SameSupport(Values(PLaw(e, pv)), LawJ(e, j))
ExactOnce == \A e \in Whole : ReadOnce(e) => SameLaw(Values(PLaw(e, pv)), LawJ(e, j))
Supports == \A e \in Whole : SuppJ(e, j) = DOMAIN LawJ(e, j)
(* The true law, world by world: every way every single die of the program   *)
(* can fall, each evaluated from the first line to the last.                 *)
RECURSIVE Slots1(_), Fall(_), Eval(_, _, _)
Slots1(e) ==   \* the dice of e in reading order
  CASE e.op \in {"int", "name"} -> <<>>
    [] e.op = "dice" -> [k \in 1 .. e.lit.n |-> DOMAIN e.lit.sides]
    [] e.op \in {"par", "not", "abs"} -> Slots1(e.a)
    [] OTHER -> Slots1(e.l) \o Slots1(e.r)
Fall(slots) == IF slots = <<>> THEN {<<>>} ELSE {<<v>> \o w : v \in slots[1], w \in Fall(Tail(slots))}
SumTo(w, n) == FoldLeft(LAMBDA acc, k : acc + w[k], 0, [k \in 1 .. n |-> k])
Eval(e, s, w) ==   \* <<value, dice not yet used>>
  CASE e.op = "int"  -> <<e.v, w>>
    [] e.op = "name" -> <<s[e.n], w>>
    [] e.op = "dice" -> <<SumTo(w, e.lit.n), SubSeq(w, e.lit.n + 1, Len(w))>>
    [] e.op = "par"  -> Eval(e.a, s, w)
    [] e.op = "not"  -> LET x == Eval(e.a, s, w) IN <<Not(x[1]), x[2]>>
    [] e.op = "abs"  -> LET x == Eval(e.a, s, w) IN <<Abs(x[1]), x[2]>>
    [] OTHER -> LET x == Eval(e.l, s, w)
                    y == Eval(e.r, s, x[2])
                IN <<Apply(e.o, x[1], y[1]), y[2]>>
AllSlots(e) == FoldLeft(LAMBDA acc, h : acc \o Slots1(h[2]), <<>>, hist) \o Slots1(e)
InWorld(e, w) ==
  LET x == FoldLeft(LAMBDA acc, h : LET y == Eval(h[2], acc[1], acc[2]) IN <<PutIn(acc[1], h[1], y[1]), y[2]>>, <<EmptyStore, w>>, hist)
  IN Eval(e, x[1], x[2])[1]
WorldLaw(e) ==
  LET F == Fall(AllSlots(e))
      val == TLCEval([w \in F |-> InWorld(e, w)])
  IN [v \in {val[w] : w \in F} |-> BFrom(Cardinality({w \in F : val[w] = v}))]
Worlds == \A e \in Whole : SameLaw(WorldLaw(e), LawJ(e, j))
Variables == \A n \in Known(j) : SameSupport(Values(pv[n]), Marginal(j, n))
\* C05: bounds enclose, and are tight unless MIN or MAX sees one roll twice
RECURSIVE HasMM(_)
HasMM(e) == CASE e.op \in {"int", "dice", "name"} -> FALSE
              [] e.op \in {"par", "not", "abs"} -> HasMM(e.a)
              [] OTHER -> e.op = "mm" \/ HasMM(e.l) \/ HasMM(e.r)
NoMM == \A k \in DOMAIN hist : ~HasMM(hist[k][2])
Bounds == \A e \in Whole :
  LET l == Ext(e, "min", lo, j)
      h == Ext(e, "max", hi, j)
      tl == Tight(e, "min", j)
      th == Tight(e, "max", j)
  IN /\ l <= tl /\ th <= h
     /\ ReadOnce(e) \/ (~HasMM(e) /\ NoMM) => l = tl /\ h = th
\* C06, C09: a roll of the program gives exactly the outcomes of non-zero probability,
\* or a zero divisor exactly where the probability query refuses
Lines(e) == [k \in 1 .. Len(hist) + 1 |-> [st |-> "ok", ast |->
               IF k <= Len(hist) THEN [op |-> "set", n |-> hist[k][1], a |-> hist[k][2]] ELSE e]]
RollsFit ==
  LET before == RunCall("roll", SubSeq(Lines(c1), 1, Len(hist)), Fresh, FALSE, FALSE, [k \in DOMAIN hist |-> {}]) IN
  /\ {r.c : r \in before} = DOMAIN j
  /\ \A e \in Asked :
       LET R == UNION {RollSet(e, s, FALSE) : s \in DOMAIN j} IN
       /\ (RollZero \in R) = ZeroJ(e, j)
       /\ RollKey \notin R
       /\ ~ZeroJ(e, j) => R = {RollVal(v) : v \in DOMAIN LawJ(e, j)}
=============================================================================
