------------------------------ MODULE MC_Dice ------------------------------
(* The laws of dice literals, computed by DiceLaw with convolution and the   *)
(* keep/drop recurrence, against the enumeration of every sequence of dice.  *)
(* One state per literal; also prints each literal, so that the real code is *)
(* asked about every one of them.                                            *)
EXTENDS DiceLaw, Json, IOUtils, TLC

Big == IOEnv.TIER = "thorough"
Emit == IOEnv.PRINT = "1"
\* faces: multiplicities of the sides
Faces == IF Big
  THEN {[v \in S |-> 1] : S \in (SUBSET {-2, -1, 0, 1, 3}) \ {{}}}
       \cup {[v \in {-1, 0, 2} |-> IF v = -1 THEN p ELSE IF v = 0 THEN q ELSE r] : p \in 1 .. 3, q \in 1 .. 2, r \in 1 .. 2}
       \cup {[v \in {9, 10} |-> IF v = 9 THEN p ELSE 1] : p \in 1 .. 3}
  ELSE {[v \in S |-> 1] : S \in {{1}, {1, 2}, {1, 2, 3}, {-1, 0, 1}, {-2, 1}, {0}}}
       \cup {[v \in {-1, 2} |-> IF v = -1 THEN 3 ELSE 1], [v \in {9, 10} |-> IF v = 9 THEN 1 ELSE 2],
             [v \in {-1, 0, 2} |-> IF v = 0 THEN 2 ELSE 1]}
MaxN == IF Big THEN 5 ELSE 4

VARIABLE lit
Lits == {[n |-> n, sides |-> f, kd |-> "", m |-> 0] : n \in 0 .. MaxN, f \in Faces}
        \cup {x \in {[n |-> n, sides |-> f, kd |-> kd, m |-> m] : n \in 0 .. MaxN, f \in Faces, kd \in {"k", "d"}, m \in 0 .. MaxN + 1} :
                x.m <= x.n + 1}

(* every way the dice can fall *)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
RECURSIVE WeightSeq(_, _)
WeightSeq(s, f) == IF s = <<>> THEN 1 ELSE f[s[1]] * WeightSeq(Tail(s), f)
Sorted(s) == SortSeq(s, LAMBDA a, b : a > b)   \* highest first
Picked(s, x) == LET h == Sorted(s) IN
  CASE x.kd = ""  -> s
    [] x.kd = "k" -> SubSeq(h, 1, MinOf(x.m, Len(h)))
    [] x.kd = "d" -> SubSeq(h, x.m + 1, Len(h))
Falls(x) == [1 .. x.n -> DOMAIN x.sides]
Brute(x) ==
  LET F == Falls(x)
      val == [s \in F |-> SumSeq(Picked(s, x))]
      vs == {val[s] : s \in F}
  IN [v \in vs |-> BFrom(FoldSet(LAMBDA s, acc : acc + WeightSeq(s, x.sides), 0, {s \in F : val[s] = v}))]

\* text of the literal
RECURSIVE DigitsOf(_)
DigitChar == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitsOf(n) == IF n < 10 THEN <<DigitChar[n + 1]>> ELSE Append(DigitsOf(n \div 10), DigitChar[(n % 10) + 1])
IntText(n) == IF n < 0 THEN <<"-">> \o DigitsOf(-n) ELSE DigitsOf(n)
RECURSIVE SideText(_, _)
SideText(vs, f) == IF vs = <<>> THEN <<>>
  ELSE IntText(vs[1]) \o (IF f[vs[1]] = 1 THEN <<>> ELSE <<"*">> \o IntText(f[vs[1]]))
       \o (IF Len(vs) = 1 THEN <<>> ELSE <<",">>) \o SideText(Tail(vs), f)
LitText(x) == IntText(x.n) \o <<"d", "[">> \o SideText(Ascending(DOMAIN x.sides), x.sides) \o <<"]">>
              \o (IF x.kd = "" THEN <<>> ELSE <<x.kd>> \o IntText(x.m))

Init == /\ lit \in Lits
        /\ ~Emit \/ PrintT("@@OPS " \o ToJson(<<[ev |-> "call", q |-> "dist", lines |-> <<LitText(lit)>>]>>))
Next == UNCHANGED lit

Exact == SameLaw(LitLaw(lit), Brute(lit))
Ends == /\ LitMin(lit) = Lo(DOMAIN Brute(lit))
        /\ LitMax(lit) = Hi(DOMAIN Brute(lit))
Support == LitSet(lit) = DOMAIN Brute(lit)
\* the total is the number of ways all N dice can fall, or a divisor of it
Parsed == LET p == Parse(LitText(lit)) IN p.st = "ok" /\ p.ast.lit = lit
=============================================================================
