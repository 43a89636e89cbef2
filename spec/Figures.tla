------------------------------ MODULE Figures ------------------------------
(* Everything derived from a distribution: probabilities, average, ends,     *)
(* cumulative probabilities, charts, sampling frequencies.  A distribution   *)
(* is observed as a sequence of <<value, count>> in ascending order; a real  *)
(* number as <<sign, magnitude>>, the magnitude a BigNat in units of 10^-12, *)
(* or in 17 digits as <<sign, magnitude, s>>, in units of 10^(-4 s).         *)
EXTENDS DiceLaw
LOCAL INSTANCE TLC

E12 == <<0, 0, 0, 1>>
TolP == <<100>>             \* 10^-10, for probabilities
TolA == <<0, 10>>           \* 10^-7, for averages
ZeroR == <<1, <<>>>>

PairTotal(ps) == FoldLeft(LAMBDA acc, p : BAdd(acc, p[2]), <<>>, ps)
PairLaw(ps) == [v \in {ps[k][1] : k \in DOMAIN ps} |-> ps[CHOOSE k \in DOMAIN ps : ps[k][1] = v][2]]
PairsOf(law) == LET vs == Ascending(DOMAIN law) IN [k \in DOMAIN vs |-> <<vs[k], law[vs[k]]>>]
GoodPairs(ps) == /\ ps # <<>>
                 /\ \A k \in DOMAIN ps : BIsNat(ps[k][2]) /\ ps[k][2] # <<>>
                 /\ \A k \in 1 .. Len(ps) - 1 : ps[k][1] < ps[k + 1][1]

\* ps is law, up to scale
SameObs(ps, law) ==
  /\ Len(ps) = Cardinality(DOMAIN law)
  /\ \A k \in DOMAIN ps : ps[k][1] \in DOMAIN law
  /\ LET tp == PairTotal(ps) tl == Total(law) IN
     /\ tp # <<>>
     /\ \A k \in DOMAIN ps : BMul(ps[k][2], tl) = BMul(law[ps[k][1]], tp)
SupportObs(ps, law) ==
  /\ Len(ps) = Cardinality(DOMAIN law)
  /\ \A k \in DOMAIN ps : ps[k][1] \in DOMAIN law /\ ps[k][2] # <<>>

\* |x - sgn num/den| <= tol
Near(x, sgn, num, den, tol) ==
  LET l == BMul(x[2], den)
      r == BMul(num, E12)
  IN IF x[1] = sgn \/ num = <<>> \/ x[2] = <<>> THEN BLe(BDiff(l, r), BMul(tol, den))
     ELSE BLe(BAdd(l, r), BMul(tol, den))
NearP(x, num, den) == Near(x, 1, num, den, TolP)
\* x = <<sign, magnitude, s>> is num/den to nine digits, however small (below 10^-290 doubles have no digits to spare)
Zeros(s) == [k \in 1 .. s |-> 0]
NearDigits(x, num, den) ==
  LET l == BMul(x[2], den)
      r == IF num = <<>> THEN num ELSE Zeros(x[3]) \o num
  IN \/ x[3] > 77 /\ BLe(Zeros(72) \o num, den)
     \/ x[1] = 1 /\ x[3] <= 77 /\ BLe(BMul(BDiff(l, r), <<0, 0, 10>>), r)

BInt(n) == BFrom(IF n < 0 THEN -n ELSE n)
PosSum(ps) == FoldLeft(LAMBDA acc, p : IF p[1] > 0 THEN BAdd(acc, BMul(BInt(p[1]), p[2])) ELSE acc, <<>>, ps)
NegSum(ps) == FoldLeft(LAMBDA acc, p : IF p[1] < 0 THEN BAdd(acc, BMul(BInt(p[1]), p[2])) ELSE acc, <<>>, ps)
NearAverage(x, ps) ==
  LET a == PosSum(ps)
      b == NegSum(ps)
  IN Near(x, IF BLe(b, a) THEN 1 ELSE -1, BDiff(a, b), PairTotal(ps), TolA)

AtLeast(ps, v) == FoldLeft(LAMBDA acc, p : IF p[1] >= v THEN BAdd(acc, p[2]) ELSE acc, <<>>, ps)
AtMost(ps, v) == FoldLeft(LAMBDA acc, p : IF p[1] <= v THEN BAdd(acc, p[2]) ELSE acc, <<>>, ps)
At1(ps, v) == FoldLeft(LAMBDA acc, p : IF p[1] = v THEN BAdd(acc, p[2]) ELSE acc, <<>>, ps)
First(ps) == ps[1][1]
LastV(ps) == ps[Len(ps)][1]

\* a table <<v, real>> ascending lists exactly lo..hi and is f at each of them, over the total of ps
IsTable(tab, ps, f(_)) ==
  LET tot == PairTotal(ps) IN
  /\ Len(tab) = LastV(ps) - First(ps) + 1
  /\ \A k \in DOMAIN tab : tab[k][1] = First(ps) + k - 1 /\ NearP(tab[k][2], f(tab[k][1]), tot)
IsAtLeast(tab, ps) == LET f(v) == AtLeast(ps, v) IN IsTable(tab, ps, f)
IsAtMost(tab, ps) == LET f(v) == AtMost(ps, v) IN IsTable(tab, ps, f)
IsFilled(tab, ps) == LET f(v) == At1(ps, v) IN IsTable(tab, ps, f)
IsDict(tab, ps) ==
  LET tot == PairTotal(ps) IN
  /\ Len(tab) = Len(ps)
  /\ \A k \in DOMAIN tab : tab[k][1] = ps[k][1] /\ IF Len(tab[k][2]) = 3 THEN NearDigits(tab[k][2], ps[k][2], tot)
                                                ELSE NearP(tab[k][2], ps[k][2], tot)

(* one distribution object and everything asked of it *)
FigureClauses(x) ==
  IF ~GoodPairs(x.d) THEN {"counts"}
  ELSE (IF IsDict(x.dict, x.d) THEN {} ELSE {"dictionary"})
       \cup (IF NearAverage(x.avg, x.d) THEN {} ELSE {"average"})
       \cup (IF x.min = First(x.d) THEN {} ELSE {"min"})
       \cup (IF x.max = LastV(x.d) THEN {} ELSE {"max"})
       \cup (IF IsAtLeast(x.atl, x.d) THEN {} ELSE {"at_least"})
       \cup (IF IsAtMost(x.atm, x.d) THEN {} ELSE {"at_most"})

-----------------------------------------------------------------------------
(* Charts.  A bar chart is observed as the drawn height at every integer of  *)
(* a range that reaches beyond the distribution on both sides.               *)
IsBars(bars, ps, f(_)) ==
  LET tot == PairTotal(ps) IN
  /\ First(ps) > bars[1][1] /\ LastV(ps) < bars[Len(bars)][1]
  /\ \A k \in DOMAIN bars :
       LET v == bars[k][1] IN
       IF v < First(ps) \/ v > LastV(ps) THEN bars[k][2][2] = <<>>
       ELSE NearP(bars[k][2], f(v), tot)
IsCurve(c, ps, f(_), label) == c.label = label /\ IsTable(c.pts, ps, f)

\* the difference chart: this minus other, every value once
DiffHeight(p, q, v) ==   \* <<sign, num, den>>
  LET tp == PairTotal(p) tq == PairTotal(q)
      a == BMul(At1(p, v), tq)
      b == BMul(At1(q, v), tp)
  IN <<IF BLe(b, a) THEN 1 ELSE -1, BDiff(a, b), BMul(tp, tq)>>
Covers(p, v) == First(p) <= v /\ v <= LastV(p)
IsDiffBars(bars, p, q) ==
  \A k \in DOMAIN bars :
    LET v == bars[k][1]
        h == DiffHeight(p, q, v)
    IN IF ~Covers(p, v) /\ ~Covers(q, v) THEN bars[k][2][2] = <<>>
       ELSE Near(bars[k][2], h[1], h[2], h[3], TolP)
(* Known findings K5 and K6: the implementation draws the difference twice   *)
(* at values both distributions cover (K5), and the bar before a gap between *)
(* the two distributions is stretched over the gap (K6).                     *)
Overlap(p, q) == First(p) <= LastV(q) /\ First(q) <= LastV(p)
InGap(p, q, v) == \/ LastV(p) < v /\ v < First(q)
                  \/ LastV(q) < v /\ v < First(p)
IsDrawnDiff(bars, p, q) ==
  \A k \in DOMAIN bars :
    LET v == bars[k][1]
        w == IF InGap(p, q, v) THEN IF LastV(p) < v THEN LastV(p) ELSE LastV(q) ELSE v
        h == DiffHeight(p, q, w)
    IN IF ~Covers(p, w) /\ ~Covers(q, w) THEN bars[k][2][2] = <<>>
       ELSE Near(bars[k][2], h[1], IF Covers(p, w) /\ Covers(q, w) THEN BMul(<<2>>, h[2]) ELSE h[2], h[3], TolP)

-----------------------------------------------------------------------------
(* Sampling.  For a cell of probability num/den seen x times in n rolls,     *)
(* Bernstein: P(|x - n p| >= t) <= 2 exp(-(t^2/2) / (n p (1-p) + t/3)).      *)
(* Accept while t^2 <= 2 L (n p (1-p) + t/3) with L = 30 (2e-13 per cell).   *)
(* Multiplied by den^2, with T = den t:                                      *)
(*   3 T^2 <= 2 L (3 n num (den - num) + den T)                              *)
LBern == 30
Plausible(x, n, num, den) ==
  LET bx == BMul(BFrom(x), den)
      bn == BMul(BFrom(n), num)
      t == BDiff(bx, bn)
  IN BLe(BMul(<<3>>, BMul(t, t)),
         BMul(BFrom(2 * LBern),
              BAdd(BMul(<<3>>, BMul(BFrom(n), BMul(num, BSub(den, num)))), BMul(den, t))))

(* cells: <<store, count>> sequence; law: store -> count; both projected     *)
CellCount(cells, N, s) ==
  FoldLeft(LAMBDA acc, c : IF Sub(c[1], N) = s THEN acc + c[2] ELSE acc, 0, cells)
FreqOn(cells, n, law, N) ==
  LET pl == Project(law, N)
      tot == Total(pl)
      seen == {Sub(cells[k][1], N) : k \in DOMAIN cells}
  IN /\ seen \subseteq DOMAIN pl
     /\ \A s \in DOMAIN pl : Plausible(CellCount(cells, N, s), n, pl[s], tot)
=============================================================================
