------------------------------- MODULE BigInt -------------------------------
(* Whole numbers of any size, <<sign, BigNat>> (zero is <<1, <<>>>>), and    *)
(* the meaning of expressions without variables on them: what DiceLaw says,  *)
(* beyond the 32 bits of TLC's own integers.                                 *)
EXTENDS DiceLaw
LOCAL INSTANCE TLC

Sgn(s, m) == IF m = <<>> THEN <<1, m>> ELSE <<s, m>>
ZFrom(n) == IF n < 0 THEN <<-1, BFrom(-n)>> ELSE <<1, BFrom(n)>>
Z0 == <<1, <<>>>>
Z1 == <<1, <<1>>>>
ZNeg(x) == Sgn(-x[1], x[2])
ZAdd(x, y) == IF x[1] = y[1] THEN Sgn(x[1], BAdd(x[2], y[2]))
              ELSE IF BLe(y[2], x[2]) THEN Sgn(x[1], BSub(x[2], y[2]))
              ELSE Sgn(y[1], BSub(y[2], x[2]))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == Sgn(x[1] * y[1], BMul(x[2], y[2]))
ZLe(x, y) == IF x[1] # y[1] THEN x[1] < y[1] ELSE IF x[1] = 1 THEN BLe(x[2], y[2]) ELSE BLe(y[2], x[2])
ZPos(x) == x[1] = 1 /\ x[2] # <<>>

\* long division of naturals: <<quotient, remainder>>, the divisor not zero
RECURSIVE DigitIn(_, _, _, _)
DigitIn(r, b, lo, hi) ==   \* the largest q in lo..hi with q b <= r
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF BLe(BTrim(BMulSmall(mid, b, 1, 0)), r) THEN DigitIn(r, b, mid, hi) ELSE DigitIn(r, b, lo, mid - 1)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, b, i, acc) ==   \* acc: <<quotient limbs, most significant last, remainder>>
  IF i = 0 THEN <<BTrim(acc[1]), acc[2]>>
  ELSE LET r == BTrim(<<a[i]>> \o acc[2])
           q == DigitIn(r, b, 0, BASE - 1)
       IN DivFrom(a, b, i - 1, <<<<q>> \o acc[1], BSub(r, BTrim(BMulSmall(q, b, 1, 0)))>>)
BDivMod(a, b) == DivFrom(a, b, Len(a), <<<<>>, <<>>>>)
\* rounding towards minus infinity
ZDiv(x, y) ==
  LET d == BDivMod(x[2], y[2]) IN
  IF x[1] = y[1] \/ x[2] = <<>> THEN Sgn(1, d[1])
  ELSE Sgn(-1, IF d[2] = <<>> THEN d[1] ELSE BAdd(d[1], BOne))

ZB(p) == IF p THEN Z1 ELSE Z0
ZAbs(x) == <<1, x[2]>>
ZNot(x) == ZB(~ZPos(x))
ZApply(o, x, y) ==
  CASE o = oPlus  -> ZAdd(x, y)
    [] o = oMinus -> ZSub(x, y)
    [] o = oTimes -> ZMul(x, y)
    [] o = oDiv   -> ZDiv(x, y)
    [] o = oEq    -> ZB(x = y)
    [] o = oNe    -> ZB(x # y)
    [] o = oLe    -> ZB(ZLe(x, y))
    [] o = oLt    -> ZB(ZLe(x, y) /\ x # y)
    [] o = oGe    -> ZB(ZLe(y, x))
    [] o = oGt    -> ZB(ZLe(y, x) /\ x # y)
    [] o = oAnd   -> ZB(ZPos(x) /\ ZPos(y))
    [] o = oOr    -> ZB(ZPos(x) \/ ZPos(y))
    [] o = oMax   -> IF ZLe(x, y) THEN y ELSE x
    [] o = oMin   -> IF ZLe(x, y) THEN x ELSE y

\* the number a constant's text stands for
ZNat(s) == FoldLeft(LAMBDA acc, c : BAdd(BTrim(BMulSmall(10, acc, 1, 0)), BFrom(DigitVal(c))), <<>>, s)
ZText(w) == CASE w = <<"T", "r", "u", "e">> -> Z1
              [] w = <<"F", "a", "l", "s", "e">> -> Z0
              [] OTHER -> IF At(w, 1) = "-" THEN Sgn(-1, ZNat(Tail(w))) ELSE <<1, ZNat(w)>>

RECURSIVE ZLaw(_, _), ZZero(_, _)
ZLaw(a, s) ==   \* s: name -> law of a variable read once
  CASE a.op = "int"  -> One(ZText(a.w))
    [] a.op = "dice" -> MapLaw(ZFrom, LitLaw(a.lit))
    [] a.op = "name" -> s[a.n]
    [] a.op \in {"par", "set"} -> ZLaw(a.a, s)
    [] a.op = "not"  -> MapLaw(ZNot, ZLaw(a.a, s))
    [] a.op = "abs"  -> MapLaw(ZAbs, ZLaw(a.a, s))
    [] OTHER -> LET f(x, y) == ZApply(a.o, x, y) IN Combine(f, ZLaw(a.l, s), ZLaw(a.r, s))
ZZero(a, s) ==
  CASE a.op \in {"int", "dice", "name"} -> FALSE
    [] a.op \in {"par", "set", "not", "abs"} -> ZZero(a.a, s)
    [] OTHER -> \/ ZZero(a.l, s) \/ ZZero(a.r, s)
                \/ a.o = oDiv /\ Z0 \in DOMAIN ZLaw(a.r, s)
ZLo(S) == CHOOSE x \in S : \A y \in S : ZLe(x, y)
ZHi(S) == CHOOSE x \in S : \A y \in S : ZLe(y, x)

(* the cost model for costs of any size; c gives the cost of each definition *)
BLitCost(lit) ==
  LET plain == BMul(BFrom(lit.n), BFrom(Cardinality(DOMAIN lit.sides)))
  IN CASE lit.kd = ""  -> plain
       [] lit.kd = "k" -> IF lit.m >= lit.n THEN plain ELSE IF lit.m = 0 THEN <<2>> ELSE BMul(plain, BFrom(lit.m))
       [] lit.kd = "d" -> IF lit.m >= lit.n THEN <<2>> ELSE IF lit.m = 0 THEN plain ELSE BMul(plain, BFrom(lit.n - lit.m))
RECURSIVE BCost(_, _)
BCost(a, c) ==
  CASE a.op = "int"  -> <<2>>
    [] a.op = "dice" -> BLitCost(a.lit)
    [] a.op = "name" -> c[a.n]
    [] a.op \in {"par", "abs"} -> BCost(a.a, c)
    [] a.op = "not"  -> LET k == BCost(a.a, c) IN BAdd(k, BDivMod(k, <<10>>)[1])
    [] a.op = "set"  -> BAdd(BCost(a.a, c), <<2>>)
    [] OTHER -> BAdd(BCost(a.l, c), BCost(a.r, c))
\* the whole program: the sum over its lines
BCostOf(asts) ==
  FoldLeft(LAMBDA acc, a : <<BAdd(acc[1], BCost(a, acc[2])),
                             IF a.op = "set" THEN [n \in DOMAIN acc[2] \cup {a.n} |-> IF n = a.n THEN BCost(a.a, acc[2]) ELSE acc[2][n]] ELSE acc[2]>>,
           <<<<>>, [n \in {} |-> 0]>>, asts)[1]
=============================================================================
