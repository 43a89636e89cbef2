------------------------------- MODULE BigNat -------------------------------
(* Exact natural numbers of any size, because TLC integers have 32 bits and  *)
(* outcome counts such as 6^20 do not fit.  Little endian limbs, base 10000; *)
(* zero is <<>>; no leading (last) zero limb.                                *)
EXTENDS Integers, Sequences, FiniteSetsExt
LOCAL INSTANCE TLC

BASE == 10000

RECURSIVE BFrom(_)
BFrom(n) == IF n = 0 THEN <<>> ELSE IF n < BASE THEN <<n>>
            ELSE <<n % BASE>> \o BFrom(n \div BASE)

BOne == <<1>>

RECURSIVE BAddC(_, _, _, _)
BAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == (IF i <= Len(a) THEN a[i] ELSE 0)
              + (IF i <= Len(b) THEN b[i] ELSE 0) + c
       IN <<s % BASE>> \o BAddC(a, b, i + 1, s \div BASE)

BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE IF Len(a) = 1 /\ Len(b) = 1
                   THEN LET s == a[1] + b[1] IN
                        IF s < BASE THEN <<s>> ELSE <<s - BASE, 1>>
              ELSE BAddC(a, b, 1, 0)

RECURSIVE BMulSmall(_, _, _, _)
BMulSmall(k, b, i, c) ==
  IF i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == k * b[i] + c IN <<s % BASE>> \o BMulSmall(k, b, i + 1, s \div BASE)

BShift(a) == IF a = <<>> THEN <<>> ELSE <<0>> \o a

RECURSIVE BMul(_, _)
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF a = <<1>> THEN b ELSE IF b = <<1>> THEN a
  ELSE IF Len(a) = 1 /\ Len(b) = 1
       THEN LET p == a[1] * b[1] IN
            IF p < BASE THEN <<p>> ELSE <<p % BASE, p \div BASE>>
  ELSE BAdd(IF a[1] = 0 THEN <<>> ELSE BMulSmall(a[1], b, 1, 0),
            BShift(BMul(Tail(a), b)))

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN BOne ELSE BMul(a, BPow(a, n - 1))

RECURSIVE BLeAt(_, _, _)
BLeAt(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLeAt(a, b, i - 1)
BLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLeAt(a, b, Len(a))
BLt(a, b) == a # b /\ BLe(a, b)

\* a - b, only for b <= a
RECURSIVE BSubC(_, _, _, _)
BSubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - c
       IN <<IF s < 0 THEN s + BASE ELSE s>> \o BSubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
BSub(a, b) == BTrim(BSubC(a, b, 1, 0))
BDiff(a, b) == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)

BSumOver(S, F(_)) == FoldSet(LAMBDA x, acc : BAdd(F(x), acc), <<>>, S)

BIsNat(a) == /\ \A i \in DOMAIN a : a[i] \in 0 .. BASE - 1
             /\ a # <<>> => a[Len(a)] # 0
=============================================================================
