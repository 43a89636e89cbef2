------------------------------ MODULE MC_Laws ------------------------------
(* Pairs of small distributions: the algebra of the operators, the figures   *)
(* derived from a distribution, and the sampling test.                       *)
EXTENDS Figures, BigInt, Json, IOUtils, TLC

Tier == IOEnv.TIER
Emit == IOEnv.PRINT = "1"
Vals == IF Tier = "quick" THEN {-2, 0, 1, 3} ELSE {-3, -2, -1, 0, 1, 2, 5}
Weights == IF Tier = "quick" THEN {1, 2} ELSE {1, 3}
Supports == {S \in SUBSET Vals : Cardinality(S) \in 1 .. (IF Tier = "quick" THEN 2 ELSE 3)}
SmallLaws == UNION {{[v \in S |-> BFrom(w[v])] : w \in [S -> Weights]} : S \in Supports}

VARIABLES d, e
Small2 == IF Tier = "quick" THEN SmallLaws ELSE {x \in SmallLaws : Cardinality(DOMAIN x) <= 2}
Plainly(x) == [k \in DOMAIN PairsOf(x) |-> <<PairsOf(x)[k][1], PairsOf(x)[k][2][1]>>]
Init == d \in SmallLaws /\ e = d /\ (~Emit \/ PrintT("@@OPS " \o ToJson([d |-> Plainly(d), e |-> Plainly(d)])))
Next == /\ e = d /\ d' = d /\ e' \in Small2
        /\ ~Emit \/ PrintT("@@OPS " \o ToJson([d |-> Plainly(d), e |-> Plainly(e')]))
\* figures and charts look at one distribution
Init1 == d \in SmallLaws /\ e = d /\ (~Emit \/ PrintT("@@OPS " \o ToJson([d |-> Plainly(d)])))
Next1 == UNCHANGED <<d, e>>

Op(o) == LET f(x, y) == Apply(o, x, y) IN Combine(f, d, e)
Safe == {o \in Operators : o # oDiv \/ 0 \notin DOMAIN e}
P1(law) == IF 1 \in DOMAIN law THEN law[1] ELSE <<>>

-----------------------------------------------------------------------------
(* C03 *)
\* every pair counted once
Conserved == \A o \in Safe : Total(Op(o)) = BMul(Total(d), Total(e))
Pairs == \A o \in Safe : \A v \in DOMAIN Op(o) :
   Op(o)[v] = BSumOver({p \in (DOMAIN d) \X (DOMAIN e) : Apply(o, p[1], p[2]) = v}, LAMBDA p : BMul(d[p[1]], e[p[2]]))
Sums == SameLaw(PlusLaw(d, e), Op(oPlus)) /\ PlusLaw(d, e) = Op(oPlus)
Algebra == \A x \in DOMAIN d, y \in DOMAIN e :
   /\ Not(Apply(oAnd, x, y)) = Apply(oOr, Not(x), Not(y))
   /\ Apply(oMin, x, y) + Apply(oMax, x, y) = x + y
   /\ Apply(oLt, x, y) = Not(Apply(oGe, x, y)) /\ Apply(oLe, x, y) = Not(Apply(oGt, x, y)) /\ Apply(oEq, x, y) = Not(Apply(oNe, x, y))
   /\ Apply(oLe, x, y) = Apply(oOr, Apply(oLt, x, y), Apply(oEq, x, y))
   /\ y # 0 => LET q == Apply(oDiv, x, y) r == x - q * y IN IF y > 0 THEN 0 <= r /\ r < y ELSE y < r /\ r <= 0
Logic == \A o \in {oEq, oNe, oLt, oLe, oGt, oGe, oAnd, oOr} : DOMAIN Op(o) \subseteq {0, 1}
\* without variables the product rule is the plain combination
Untagged == \A o \in Safe : LET f(x, y) == Apply(o, x, y) IN Values(PCombine(f, Untag(d), Untag(e))) = Op(o)

\* numbers of any size: the same operators as on TLC's integers, and division proper
Stretch == IF Tier = "quick" THEN {1, 7919} ELSE {1, 100, 7919, 9000}
BigAgree == \A x \in DOMAIN d, y \in DOMAIN e, k \in Stretch, m \in Stretch : \A o \in Safe :
   ZApply(o, ZFrom(x * k), ZFrom(y * m)) = ZFrom(Apply(o, x * k, y * m))
HugeX == {ZAdd(ZMul(ZFrom(x), <<1, w>>), ZFrom(u)) : x \in DOMAIN d, w \in {<<0, 0, 7, 1>>, <<9999, 9999, 9999, 9999, 42>>}, u \in {-1, 0, 1}}
HugeY == {ZAdd(ZMul(ZFrom(y), <<1, w>>), ZFrom(u)) : y \in DOMAIN e, w \in {<<1, 10>>, <<3, 0, 1>>}, u \in {-1, 0, 2}} \ {Z0}
BigDivision == \A x \in HugeX, y \in HugeY :
   LET q == ZDiv(x, y)
       r == ZSub(x, ZMul(q, y))
   IN IF y[1] = 1 THEN ZLe(Z0, r) /\ ZLe(r, y) /\ r # y ELSE ZLe(r, Z0) /\ ZLe(y, r) /\ r # y

-----------------------------------------------------------------------------
(* C08: the figures a correct implementation would report, rounded to 12 digits *)
RECURSIVE BDivSmallAt(_, _, _, _)
\* floor(num * 10^12 / den) for a small den
BDivSmallAt(n, den, i, rem) ==
  IF i = 0 THEN <<>>
  ELSE LET x == rem * BASE + n[i] IN Append(BDivSmallAt(n, den, i - 1, x % den), x \div den)
BDivSmall(n, den) == BTrim(BDivSmallAt(n, den, Len(n), 0))
Small(b) == IF b = <<>> THEN 0 ELSE IF Len(b) = 1 THEN b[1] ELSE b[1] + BASE * b[2]
Ratio(num, den) == <<1, BDivSmall(BMul(num, E12), Small(den))>>
Ps == PairsOf(d)
Tot == PairTotal(Ps)
Between == First(Ps) .. LastV(Ps)
Tab(f(_)) == [k \in 1 .. LastV(Ps) - First(Ps) + 1 |-> <<First(Ps) + k - 1, Ratio(f(First(Ps) + k - 1), Tot)>>]
Atl(v) == AtLeast(Ps, v)
Atm(v) == AtMost(Ps, v)
Avg == LET a == PosSum(Ps) b == NegSum(Ps) IN
       IF BLe(b, a) THEN Ratio(BSub(a, b), Tot) ELSE <<-1, Ratio(BSub(b, a), Tot)[2]>>
Ratio17(num, den) == LET r == BDivSmall(BMul(num, <<0, 0, 0, 0, 0, 1>>), Small(den)) IN <<1, r, 5>>
Seen == [d |-> Ps, dict |-> [k \in DOMAIN Ps |-> <<Ps[k][1], Ratio17(Ps[k][2], Tot)>>], avg |-> Avg, min |-> First(Ps), max |-> LastV(Ps),
         atl |-> Tab(Atl), atm |-> Tab(Atm)]
Accepts == FigureClauses(Seen) = {}
Bump(r) == <<r[1], BAdd(r[2], <<0, 100>>)>>   \* 10^-6 more
Rejects == /\ "average" \in FigureClauses([Seen EXCEPT !.avg = Bump(@)])
           /\ "average" \in FigureClauses([Seen EXCEPT !.avg = <<-@[1], @[2]>>]) \/ Avg[2] = <<>>
           /\ \A k \in DOMAIN Seen.dict : \A b \in {<<0, 0, 0, 1>>, <<0, 0, 100>>} :   \* 10^-8 and 10^-10 more, where that is a billionth
                IF BLe(BMul(b, <<0, 0, 11>>), Seen.dict[k][2][2])
                THEN "dictionary" \notin FigureClauses([Seen EXCEPT !.dict[k] = <<@[1], <<1, BAdd(@[2][2], b), 5>>>>])
                ELSE "dictionary" \in FigureClauses([Seen EXCEPT !.dict[k] = <<@[1], <<1, BAdd(@[2][2], BMul(b, <<0, 1>>)), 5>>>>])
           /\ \A k \in DOMAIN Seen.dict : /\ "dictionary" \in FigureClauses([Seen EXCEPT !.dict[k] = <<@[1], <<1, <<>>, 5>>>>])
                                         /\ "dictionary" \in FigureClauses([Seen EXCEPT !.dict[k] = <<@[1], <<1, <<>>, 80>>>>])
                                         /\ "dictionary" \in FigureClauses([Seen EXCEPT !.dict[k] = <<@[1], <<-1, @[2][2], 5>>>>])
           /\ \A k \in DOMAIN Seen.atl : "at_least" \in FigureClauses([Seen EXCEPT !.atl[k] = <<@[1], Bump(@[2])>>])
           /\ \A k \in DOMAIN Seen.atm : "at_most" \in FigureClauses([Seen EXCEPT !.atm[k] = <<@[1], Bump(@[2])>>])
           /\ Len(Seen.atl) > 1 => "at_least" \in FigureClauses([Seen EXCEPT !.atl = Tail(@)])
           /\ "min" \in FigureClauses([Seen EXCEPT !.min = @ - 1]) /\ "max" \in FigureClauses([Seen EXCEPT !.max = @ + 1])
\* identities of the cumulative tables
Tables == /\ Atl(First(Ps)) = Tot /\ Atm(LastV(Ps)) = Tot
          /\ \A v \in Between : BAdd(Atl(v), Atm(v - 1)) = Tot /\ BLe(At1(Ps, v), Atm(v))
          /\ \A v \in Between : v > First(Ps) => BLe(Atl(v), Atl(v - 1)) /\ BLe(Atm(v - 1), Atm(v))
Ends == First(Ps) = Lo(DOMAIN d) /\ LastV(Ps) = Hi(DOMAIN d)

-----------------------------------------------------------------------------
(* C16: the chart tests *)
BarsFor(f(_)) == [k \in 1 .. LastV(Ps) - First(Ps) + 5 |->
                   LET v == First(Ps) + k - 3 IN <<v, IF v < First(Ps) \/ v > LastV(Ps) THEN ZeroR ELSE Ratio(f(v), Tot)>>]
Ones(v) == At1(Ps, v)
ChartAccepts == /\ IsBars(BarsFor(Ones), Ps, Ones) /\ IsBars(BarsFor(Atl), Ps, Atl) /\ IsBars(BarsFor(Atm), Ps, Atm)
ChartRejects == /\ \A k \in DOMAIN BarsFor(Ones) : ~IsBars([BarsFor(Ones) EXCEPT ![k] = <<@[1], Bump(@[2])>>], Ps, Ones)
                /\ Len(Ps) > 1 => ~IsBars(BarsFor(Atl), Ps, Atm) /\ ~IsBars(BarsFor(Ones), Ps, Atl)
DiffSelf == \A v \in Between : DiffHeight(Ps, Ps, v)[2] = <<>>
=============================================================================
