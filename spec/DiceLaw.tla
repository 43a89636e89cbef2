------------------------------ MODULE DiceLaw ------------------------------
(* What an expression means.  A law is a function from values to exact      *)
(* outcome counts (BigNat, never zero); laws are equal up to scale.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, BigNat, DiceText
LOCAL INSTANCE TLC

One(v) == [x \in {v} |-> BOne]
Total(d) == BSumOver(DOMAIN d, LAMBDA v : d[v])
Scale(w, d) == TLCEval([v \in DOMAIN d |-> BMul(w, d[v])])
Mix(d, e) == TLCEval([v \in DOMAIN d \cup DOMAIN e |->
                BAdd(IF v \in DOMAIN d THEN d[v] ELSE <<>>, IF v \in DOMAIN e THEN e[v] ELSE <<>>)])
NoLaw == [x \in {} |-> BOne]
Shift(d, k) == TLCEval([v \in {x + k : x \in DOMAIN d} |-> d[v - k]])

\* the law of f(X), and of f(X, Y) for independent X and Y
MapLaw(f(_), d) ==
  TLCEval([s \in {f(x) : x \in DOMAIN d} |-> BSumOver({x \in DOMAIN d : f(x) = s}, LAMBDA x : d[x])])
Combine(f(_, _), d, e) ==
  LET P == (DOMAIN d) \X (DOMAIN e)
      S == {f(p[1], p[2]) : p \in P}
  IN FoldSet(LAMBDA p, acc : [acc EXCEPT ![f(p[1], p[2])] = BAdd(@, BMul(d[p[1]], e[p[2]]))],
             [s \in S |-> <<>>], P)
PlusLaw(d, e) ==
  TLCEval([s \in {x + y : x \in DOMAIN d, y \in DOMAIN e} |->
     BSumOver({x \in DOMAIN d : s - x \in DOMAIN e}, LAMBDA x : BMul(d[x], e[s - x]))])

SameLaw(d, e) ==
  /\ DOMAIN d = DOMAIN e
  /\ LET td == Total(d) te == Total(e)
     IN \A v \in DOMAIN d : BMul(d[v], te) = BMul(e[v], td)
SameSupport(d, e) == DOMAIN d = DOMAIN e

-----------------------------------------------------------------------------
(* dice *)
FaceLaw(sides) == TLCEval([v \in DOMAIN sides |-> BFrom(sides[v])])
RECURSIVE SumLaw(_, _)
SumLaw(n, face) == IF n = 0 THEN One(0) ELSE IF n = 1 THEN face
                   ELSE LET h == SumLaw(n \div 2, face) IN
                        IF n % 2 = 0 THEN PlusLaw(h, h) ELSE PlusLaw(PlusLaw(h, h), face)

RECURSIVE PascalRow(_)
PascalRow(n) == IF n = 0 THEN <<BOne>>
                ELSE LET p == PascalRow(n - 1) IN
                     TLCEval([i \in 1 .. n + 1 |-> BAdd(IF i <= n THEN p[i] ELSE <<>>, IF i > 1 THEN p[i - 1] ELSE <<>>)])

(* Sum of the first k dice of n when they are put in the order of the        *)
(* sequence fs of faces (highest first: keep; lowest first: drop).  Works    *)
(* through the faces from the last to the first; tab[r+1] is the law when r  *)
(* dice are still undecided, of which Max(0, k-(n-r)) will count.            *)
Slots(n, k, r) == IF k - (n - r) > 0 THEN k - (n - r) ELSE 0
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
SelectLaw(n, k, fs, face) ==
  LET binom == TLCEval([r \in 0 .. n |-> PascalRow(r)])
      step(f, tab) ==
        LET pows == TLCEval([j \in 0 .. n |-> BPow(face[f], j)]) IN
        TLCEval([r1 \in 1 .. n + 1 |->
          LET r == r1 - 1
              s == Slots(n, k, r)
              term(j) == Scale(BMul(binom[r][j + 1], pows[j]), Shift(tab[r - j + 1], f * MinOf(j, s)))
          IN FoldSet(LAMBDA j, acc : Mix(term(j), acc), NoLaw, 0 .. r)])
      start == [r1 \in 1 .. n + 1 |-> IF r1 = 1 THEN One(0) ELSE NoLaw]
  IN FoldLeft(LAMBDA tab, f : step(f, tab), start, Reverse(fs))[n + 1]

Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Descending(S) == SetToSortSeq(S, LAMBDA a, b : a > b)

LitLaw(lit) ==
  LET face == FaceLaw(lit.sides) IN
  CASE lit.kd = ""  -> SumLaw(lit.n, face)
    [] lit.kd = "k" -> IF lit.m >= lit.n THEN SumLaw(lit.n, face)
                       ELSE IF lit.m = 0 THEN One(0)
                       ELSE SelectLaw(lit.n, lit.m, Descending(DOMAIN face), face)
    [] lit.kd = "d" -> IF lit.m >= lit.n THEN One(0)
                       ELSE IF lit.m = 0 THEN SumLaw(lit.n, face)
                       ELSE SelectLaw(lit.n, lit.n - lit.m, Ascending(DOMAIN face), face)

Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : y <= x
\* how many dice are summed
Summed(lit) == CASE lit.kd = ""  -> lit.n
                 [] lit.kd = "k" -> MinOf(lit.m, lit.n)
                 [] lit.kd = "d" -> MaxOf(0, lit.n - lit.m)
LitMin(lit) == Summed(lit) * Lo(DOMAIN lit.sides)
LitMax(lit) == Summed(lit) * Hi(DOMAIN lit.sides)

\* the set of possible sums of k values of S (kept and dropped dice can each be anything)
RECURSIVE SumsOf(_, _)
SumsOf(k, S) == IF k = 0 THEN {0} ELSE LET T == SumsOf(k - 1, S) IN {x + y : x \in S, y \in T}
LitSet(lit) == SumsOf(Summed(lit), DOMAIN lit.sides)

-----------------------------------------------------------------------------
(* operators on numbers *)
B(p) == IF p THEN 1 ELSE 0
True(x) == x > 0
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Abs(x) == IF x < 0 THEN -x ELSE x

oPlus == <<"+">>
oMinus == <<"-">>
oTimes == <<"*">>
oDiv == <<"/", "/">>
oEq == <<"=", "=">>
oNe == <<"!", "=">>
oLe == <<"<", "=">>
oLt == <<"<">>
oGe == <<">", "=">>
oGt == <<">">>
oAnd == <<"A", "N", "D">>
oOr == <<"O", "R">>
oMax == <<"M", "A", "X">>
oMin == <<"M", "I", "N">>
Operators == {oPlus, oMinus, oTimes, oDiv, oEq, oNe, oLe, oLt, oGe, oGt, oAnd, oOr, oMax, oMin}

Apply(o, x, y) ==
  CASE o = oPlus  -> x + y
    [] o = oMinus -> x - y
    [] o = oTimes -> x * y
    [] o = oDiv   -> FloorDiv(x, y)
    [] o = oEq    -> B(x = y)
    [] o = oNe    -> B(x # y)
    [] o = oLe    -> B(x <= y)
    [] o = oLt    -> B(x < y)
    [] o = oGe    -> B(x >= y)
    [] o = oGt    -> B(x > y)
    [] o = oAnd   -> B(True(x) /\ True(y))
    [] o = oOr    -> B(True(x) \/ True(y))
    [] o = oMax   -> MaxOf(x, y)
    [] o = oMin   -> MinOf(x, y)
Not(x) == B(~True(x))

\* Known finding K3: rolling AND takes the bitwise conjunction of the operands.
RECURSIVE BitsMeet(_, _, _)
BitsMeet(x, y, n) == n > 0 /\ ((x % 2 = 1 /\ y % 2 = 1) \/ BitsMeet(x \div 2, y \div 2, n - 1))
RollApply(o, x, y, k3) ==
  IF o = oAnd /\ k3 THEN B(BitsMeet(x % 1048576, y % 1048576, 20)) ELSE Apply(o, x, y)

-----------------------------------------------------------------------------
(* Expressions.  A store maps variable names to values.                      *)

\* the law of expression a when the variables have the values of store s;
\* only for expressions without an assignment inside and without a zero divisor
RECURSIVE LawIn(_, _)
LawIn(a, s) ==
  CASE a.op = "int"  -> One(a.v)
    [] a.op = "dice" -> LitLaw(a.lit)
    [] a.op = "name" -> One(s[a.n])
    [] a.op = "par"  -> LawIn(a.a, s)
    [] a.op = "set"  -> LawIn(a.a, s)
    [] a.op = "not"  -> MapLaw(Not, LawIn(a.a, s))
    [] a.op = "abs"  -> MapLaw(Abs, LawIn(a.a, s))
    [] OTHER -> LET d == LawIn(a.l, s)
                    e == LawIn(a.r, s)
                IN IF a.o = oPlus THEN PlusLaw(d, e)
                   ELSE LET f(x, y) == Apply(a.o, x, y) IN Combine(f, d, e)

\* the values a can take when the variables have the values of s (the domain of LawIn)
RECURSIVE SuppIn(_, _)
SuppIn(a, s) ==
  CASE a.op = "int"  -> {a.v}
    [] a.op = "dice" -> LitSet(a.lit)
    [] a.op = "name" -> {s[a.n]}
    [] a.op \in {"par", "set"} -> SuppIn(a.a, s)
    [] a.op = "not"  -> {Not(x) : x \in SuppIn(a.a, s)}
    [] a.op = "abs"  -> {Abs(x) : x \in SuppIn(a.a, s)}
    [] OTHER -> {Apply(a.o, p[1], p[2]) : p \in SuppIn(a.l, s) \X SuppIn(a.r, s)}

\* can a zero divisor occur when the variables have the values of s?
RECURSIVE ZeroIn(_, _)
ZeroIn(a, s) ==
  CASE a.op \in {"int", "dice", "name"} -> FALSE
    [] a.op \in {"par", "set", "not", "abs"} -> ZeroIn(a.a, s)
    [] OTHER -> \/ ZeroIn(a.l, s)
                \/ ZeroIn(a.r, s)
                \/ a.o = oDiv /\ 0 \in SuppIn(a.r, s)

(* What one roll of a can give with store s: pairs <<0, value>>,             *)
(* <<1, 0>> zero divisor, <<2, 0>> unknown name.                             *)
RollVal(v) == <<0, v>>
RollZero == <<1, 0>>
RollKey == <<2, 0>>
RECURSIVE RollSet(_, _, _)
RollSet(a, s, k3) ==
  CASE a.op = "int"  -> {RollVal(a.v)}
    [] a.op = "dice" -> {RollVal(v) : v \in LitSet(a.lit)}
    [] a.op = "name" -> IF a.n \in DOMAIN s THEN {RollVal(s[a.n])} ELSE {RollKey}
    [] a.op \in {"par", "set"} -> RollSet(a.a, s, k3)
    [] a.op = "not"  -> {IF x[1] = 0 THEN RollVal(Not(x[2])) ELSE x : x \in RollSet(a.a, s, k3)}
    [] a.op = "abs"  -> {IF x[1] = 0 THEN RollVal(Abs(x[2])) ELSE x : x \in RollSet(a.a, s, k3)}
    [] OTHER ->
         LET L == RollSet(a.l, s, k3)
             R == RollSet(a.r, s, k3)
             VL == {x \in L : x[1] = 0}
             VR == {x \in R : x[1] = 0}
             D == IF a.o = oDiv THEN VR \ {RollVal(0)} ELSE VR
         IN (L \ VL) \cup (R \ VR)
            \cup (IF D # VR THEN {RollZero} ELSE {})
            \cup {RollVal(RollApply(a.o, p[1][2], p[2][2], k3)) : p \in VL \X D}

\* the law of one roll of an expression without names, errors included
RECURSIVE ErrLaw(_)
ErrLaw(a) ==
  CASE a.op = "int"  -> One(RollVal(a.v))
    [] a.op = "dice" -> MapLaw(RollVal, LitLaw(a.lit))
    [] a.op \in {"par", "set"} -> ErrLaw(a.a)
    [] a.op = "not"  -> MapLaw(LAMBDA x : IF x[1] = 0 THEN RollVal(Not(x[2])) ELSE x, ErrLaw(a.a))
    [] a.op = "abs"  -> MapLaw(LAMBDA x : IF x[1] = 0 THEN RollVal(Abs(x[2])) ELSE x, ErrLaw(a.a))
    [] OTHER -> LET f(x, y) == IF x[1] = 1 \/ y[1] = 1 \/ (a.o = oDiv /\ y[2] = 0) THEN RollZero
                               ELSE RollVal(Apply(a.o, x[2], y[2]))
                IN Combine(f, ErrLaw(a.l), ErrLaw(a.r))

-----------------------------------------------------------------------------
(* Stores with a law: a joint law maps stores to outcome counts.             *)
EmptyStore == [x \in {} |-> 0]
SureStore == [s \in {EmptyStore} |-> BOne]
Sub(s, N) == [n \in DOMAIN s \cap N |-> s[n]]
Project(joint, N) == MapLaw(LAMBDA s : Sub(s, N), joint)
Known(joint) == DOMAIN (CHOOSE s \in DOMAIN joint : TRUE)

LawJ(a, joint) ==
  IF Reads(a) = {} THEN LawIn(a, EmptyStore)
  ELSE LET j == Project(joint, Reads(a)) IN
       FoldSet(LAMBDA s, acc : Mix(Scale(j[s], LawIn(a, s)), acc), NoLaw, DOMAIN j)
SuppJ(a, joint) ==
  IF Reads(a) = {} THEN SuppIn(a, EmptyStore)
  ELSE UNION {SuppIn(a, s) : s \in {Sub(t, Reads(a)) : t \in DOMAIN joint}}
ZeroJ(a, joint) ==
  IF Reads(a) = {} THEN ZeroIn(a, EmptyStore)
  ELSE \E s \in {Sub(t, Reads(a)) : t \in DOMAIN joint} : ZeroIn(a, s)

PutIn(s, n, v) == [m \in DOMAIN s \cup {n} |-> IF m = n THEN v ELSE s[m]]
(* VAR n = a: one roll of a, remembered.  Group the stores by what a reads. *)
AssignJ(n, a, joint) ==
  LET j == Project(joint, Reads(a))
      law == TLCEval([r \in DOMAIN j |-> LawIn(a, r)])
      W == UNION {{<<s, v>> : v \in DOMAIN law[Sub(s, Reads(a))]} : s \in DOMAIN joint}
      T == {PutIn(p[1], n, p[2]) : p \in W}
  IN IF \A s \in DOMAIN joint : n \notin DOMAIN s
     THEN TLCEval([t \in T |-> LET s == Sub(t, DOMAIN t \ {n})
                               IN BMul(joint[s], law[Sub(s, Reads(a))][t[n]])])
     ELSE FoldSet(LAMBDA p, acc : [acc EXCEPT ![PutIn(p[1], n, p[2])] =
                     BAdd(@, BMul(joint[p[1]], law[Sub(p[1], Reads(a))][p[2]]))],
                  [t \in T |-> <<>>], W)
Marginal(joint, n) == MapLaw(LAMBDA s : s[n], joint)

-----------------------------------------------------------------------------
(* The product rule over consistent outcomes: how the implementation         *)
(* computes with variables.  An outcome is <<value, tags>>, tags the set of  *)
(* <<version, value>> it depends on.  Its support is that of the true law;   *)
(* its weights are those of the true law when no roll is used twice, and     *)
(* otherwise count a reused roll once per use: known finding K1.             *)
Fits(c, d) == \A p \in c : \A q \in d : p[1] = q[1] => p[2] = q[2]
Untag(law) == [o \in {<<v, {}>> : v \in DOMAIN law} |-> law[o[1]]]
Values(pd) == MapLaw(LAMBDA o : o[1], pd)
PMap(f(_), pd) == MapLaw(LAMBDA o : <<f(o[1]), o[2]>>, pd)
PCombine(f(_, _), d, e) ==
  LET P == {p \in (DOMAIN d) \X (DOMAIN e) : Fits(p[1][2], p[2][2])}
      g(p) == <<f(p[1][1], p[2][1]), p[1][2] \cup p[2][2]>>
      S == {g(p) : p \in P}
  IN FoldSet(LAMBDA p, acc : [acc EXCEPT ![g(p)] = BAdd(@, BMul(d[p[1]], e[p[2]]))],
             [s \in S |-> <<>>], P)
RECURSIVE PLaw(_, _)
PLaw(a, pv) ==
  CASE a.op = "int"  -> Untag(One(a.v))
    [] a.op = "dice" -> Untag(LitLaw(a.lit))
    [] a.op = "name" -> pv[a.n]
    [] a.op \in {"par", "set"} -> PLaw(a.a, pv)
    [] a.op = "not"  -> PMap(Not, PLaw(a.a, pv))
    [] a.op = "abs"  -> PMap(Abs, PLaw(a.a, pv))
    [] OTHER -> LET f(x, y) == Apply(a.o, x, y) IN PCombine(f, PLaw(a.l, pv), PLaw(a.r, pv))
PTag(pd, k) == MapLaw(LAMBDA o : <<o[1], o[2] \cup {<<k, o[1]>>}>>, pd)
\* the variables after the assignments <<name, expression>> of hist
PStore(hist) ==
  FoldLeft(LAMBDA acc, h :
             LET k == acc[2] + 1 IN
             <<[m \in DOMAIN acc[1] \cup {h[1]} |->
                  IF m = h[1] THEN PTag(PLaw(h[2], acc[1]), k) ELSE acc[1][m]], k>>,
           <<[x \in {} |-> 0], 0>>, hist)[1]

-----------------------------------------------------------------------------
(* the cost model; c gives the cost of the definition of each variable *)
LitCost(lit) ==
  LET k == Cardinality(DOMAIN lit.sides)
      plain == lit.n * k
  IN CASE lit.kd = ""  -> plain
       [] lit.kd = "k" -> IF lit.m >= lit.n THEN plain ELSE IF lit.m = 0 THEN 2 ELSE plain * lit.m
       [] lit.kd = "d" -> IF lit.m >= lit.n THEN 2 ELSE IF lit.m = 0 THEN plain ELSE plain * (lit.n - lit.m)
RECURSIVE Cost(_, _)
Cost(a, c) ==
  CASE a.op = "int"  -> 2
    [] a.op = "dice" -> LitCost(a.lit)
    [] a.op = "name" -> c[a.n]
    [] a.op \in {"par", "abs"} -> Cost(a.a, c)
    [] a.op = "not"  -> LET k == Cost(a.a, c) IN k + k \div 10
    [] a.op = "set"  -> Cost(a.a, c) + 2
    [] OTHER -> Cost(a.l, c) + Cost(a.r, c)
=============================================================================
