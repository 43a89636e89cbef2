----------------------------- MODULE TraceDice -----------------------------
(* Checks a recorded history of the real implementation against the          *)
(* specification, one event per step.  Every event gets a verdict: the set   *)
(* of failing clauses and the set of known findings met.                     *)
EXTENDS Nest, Interp, Figures, Constraints, BigInt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Leak == Trace[1].leak = 1

VARIABLES l,    \* next event
          ss,   \* interpreters: id -> set of possible states
          rs,   \* results returned so far: id -> content
          hp,   \* distribution objects and constraint sets: id -> model
          mm    \* memo: history of one interpreter -> its last result
vars == <<l, ss, rs, hp, mm>>

NoFun == [x \in {} |-> 0]
Res(e) == [n \in {e.res[k][1] : k \in DOMAIN e.res} |-> e.res[CHOOSE k \in DOMAIN e.res : e.res[k][1] = n][2]]
Parsed(ts) == [k \in DOMAIN ts |-> Parse(ts[k])]
SetName(p) == IF p.st = "ok" /\ p.ast.op = "set" THEN p.ast.n ELSE <<>>

\* verdict of an event: failing clauses, known findings, new model state
V(bad, known, s2, r2, h2) == [bad |-> bad, known |-> known, ss |-> s2, rs |-> r2, hp |-> h2, mm |-> mm]
Plain(bad, known) == V(bad, known, ss, rs, hp)

-----------------------------------------------------------------------------
(* calls on interpreters *)
View(q, law, x) ==   \* x is what query q shows of law
  CASE q = "dist" -> SameObs(x, law)
    [] q = "dict" -> IsDict(x, PairsOf(law))
    [] q = "avg"  -> NearAverage(x, PairsOf(law))
    [] OTHER -> TRUE

\* the laws a law query reports, by name
TrueLaws(r) == [n \in Known(r.j) \cup {STDOUT} |-> IF n = STDOUT THEN r.out ELSE Marginal(r.j, n)]
RuleLaws(r, last) ==
  LET pv == PStore(r.h) IN
  [n \in DOMAIN pv \cup {STDOUT} |->
     Values(IF n = STDOUT THEN IF last.op = "set" THEN pv[last.n] ELSE PLaw(last, pv) ELSE pv[n])]

AllView(q, laws, res) == DOMAIN res = DOMAIN laws /\ \A n \in DOMAIN laws : View(q, laws[n], res[n])

Matches(e, r, res, last) ==
  CASE e.q \in ValueQueries -> res = PutIn(r.c, STDOUT, r.out)
    [] e.q = "cost" -> e.res = r.out
    [] e.q = "hist" -> TRUE
    [] OTHER -> AllView(e.q, TrueLaws(r), res)

RollHints(e, ps, res) ==
  [k \in DOMAIN ps |->
    IF e.q # "roll" \/ e.st # "ok" THEN {}
    ELSE IF k = Len(ps) THEN {res[STDOUT]}
    ELSE LET n == SetName(ps[k]) IN
         IF n \in {<<>>, STDOUT} \/ \E m \in k + 1 .. Len(ps) : SetName(ps[m]) = n THEN {}
         ELSE IF n \in DOMAIN res THEN {res[n]} ELSE {}]

(* A line the model gives no meaning to (an assignment inside an expression) *)
Odd(p) == p.st = "ok" /\ HasSet(IF p.ast.op = "set" THEN p.ast.a ELSE p.ast)

CallVerdict(e) ==
  LET bel == IF e.fresh = 1 THEN {Fresh} ELSE ss[e.i]
      ps == Parsed(e.lines)
      val == e.q \in ValueQueries \cup {"dist", "dict", "avg"}
      res == IF e.st = "ok" /\ val THEN Res(e) ELSE NoFun
      hints == RollHints(e, ps, res)
      last == ps[Len(ps)].ast
      outs(k3) == UNION {RunCall(e.q, ps, s, k3, Leak, hints) : s \in bel}
      status(r) == IF e.st = "ok" THEN r.err = "" ELSE r.err = e.st
      fit(R) == {r \in R : status(r) /\ (e.st # "ok" \/ e.lv = "err" \/ Matches(e, r, res, last))}
      f0 == outs(FALSE)
      g0 == fit(f0)
      g3 == IF e.q = "roll" THEN fit(outs(TRUE)) ELSE {}
      g1 == IF e.st = "ok" /\ e.q \in LawQueries
            THEN {r \in f0 : status(r) /\ AllView(e.q, RuleLaws(r, last), res)} ELSE {}
      r2 == IF e.rid > 0 /\ e.st = "ok" THEN PutIn(rs, e.rid, e.res) ELSE rs
      go(bad, known, R) == V(bad, known, PutIn(ss, e.i, {Leave(r) : r \in R}), r2, hp)
      like == {r \in f0 : status(r)}
      seen == {IF e.st = "ok" /\ e.q \in ValueQueries
               THEN [s EXCEPT !.c = Sub(res, DOMAIN res \ {STDOUT})] ELSE s :
                 s \in IF like # {} THEN {Leave(r) : r \in like} ELSE bel}
  IN IF e.st = "ok" /\ val /\ STDOUT \notin DOMAIN res
     THEN V({"no stdout in the result"}, {}, PutIn(ss, e.i, bel), r2, hp)
     ELSE IF g0 # {} THEN go({}, {}, g0)
     ELSE IF g3 # {} THEN go({}, {"K3"}, g3)
     ELSE IF g1 # {} THEN go({}, {"K1"}, g1)
     ELSE V({IF f0 = {} \/ like # {} THEN "result of " \o e.q ELSE "error status of " \o e.q}, {},
            PutIn(ss, e.i, seen), r2, hp)

NestVerdict(e) ==
  LET ps == Parsed(e.lines)
      flat(copy) == Flat([k \in DOMAIN ps |-> ps[k].ast], copy)
      res == IF e.st = "ok" THEN Res(e) ELSE NoFun
      fits(copy, rule) ==
        LET f == flat(copy)
            last == f[Len(f)].ast
        IN \E r \in RunCall(e.q, f, Fresh, FALSE, FALSE, Anything(f)) :
             r.err = "" /\ IF rule THEN AllView(e.q, RuleLaws(r, last), res) ELSE Matches(e, r, res, last)
  IN Plain(IF e.st # "ok" THEN {"error status of " \o e.q}
           ELSE IF fits(FALSE, FALSE) THEN {}
           ELSE IF e.q # "roll" /\ (fits(TRUE, FALSE) \/ fits(TRUE, TRUE) \/ fits(FALSE, TRUE)) THEN {} ELSE {"result of " \o e.q},
           IF e.st # "ok" \/ fits(FALSE, FALSE) THEN {} ELSE IF e.q # "roll" /\ (fits(TRUE, FALSE) \/ fits(TRUE, TRUE)) THEN {"K8"}
           ELSE IF e.q # "roll" /\ fits(FALSE, TRUE) THEN {"K1"} ELSE {})

(* A line that fails after an assignment inside it: e.was and e.now are what  *)
(* its names hold before and after.  Known finding K9: those it met before    *)
(* failing stay assigned.                                                     *)
NestFailVerdict(e) ==
  LET same == e.now = e.was
      leaked == \A k \in DOMAIN e.now : e.now[k] \in {e.was[k], e.to[k]}
  IN Plain(IF e.st \notin {"ZeroDivisionError", "KeyError"} THEN {"error status of " \o e.q}
           ELSE IF same \/ leaked THEN {} ELSE {"a failing line assigned something else"},
           IF ~same /\ leaked /\ e.st \in {"ZeroDivisionError", "KeyError"} THEN {"K9"} ELSE {})

(* Repeatability: a result is a function of the interpreter's own history.   *)
(* Judged without knowing the function: whatever was seen first for a        *)
(* history - in this process or in an earlier one - must be seen always.     *)
CloseReal(x, y) == IF x[1] = y[1] THEN BLe(BDiff(x[2], y[2]), TolA) ELSE BLe(BAdd(x[2], y[2]), TolA)
Alike(q, x, y) ==
  CASE q = "cost" -> x = y
    [] q = "hist" -> TRUE
    [] OTHER ->
       /\ Len(x) = Len(y)
       /\ \A k \in DOMAIN x :
            /\ x[k][1] = y[k][1]
            /\ CASE q = "dist" -> x[k][2] = y[k][2] \/ (GoodPairs(x[k][2]) /\ GoodPairs(y[k][2])
                                    /\ SameLaw(PairLaw(x[k][2]), PairLaw(y[k][2])))
                 [] q = "dict" -> /\ Len(x[k][2]) = Len(y[k][2])
                                  /\ \A n \in DOMAIN x[k][2] : /\ x[k][2][n][1] = y[k][2][n][1]
                                                               /\ CloseReal(x[k][2][n][2], y[k][2][n][2])
                 [] q = "avg"  -> CloseReal(x[k][2], y[k][2])
                 [] OTHER -> x[k][2] = y[k][2]
\* A history is named by the event that first completed it (0: nothing yet); mm maps <<history before, call>> to
\* <<history after, status, result>>.  What a roll gave is part of the history; a roll that failed may have assigned
\* unseen values, so its history is new.
DetVerdict(e) ==
  LET own == IF e.fresh = 1 THEN 0 ELSE ss[e.i]
      key == IF e.q # "roll" THEN <<own, e.q, e.lines>>
             ELSE <<own, e.q, e.lines, e.st, IF e.st = "ok" THEN e.res ELSE l>>
      seen == key \in DOMAIN mm
      r2 == IF e.rid > 0 /\ e.st = "ok" THEN PutIn(rs, e.rid, e.res) ELSE rs
      ok == \/ e.q = "roll" \/ ~seen
            \/ mm[key][2] = e.st /\ (e.st # "ok" \/ Alike(e.q, mm[key][3], e.res))
  IN [V(IF ok THEN {} ELSE {"not repeatable: " \o e.q}, {}, PutIn(ss, e.i, IF seen THEN mm[key][1] ELSE l), r2, hp) EXCEPT
        !.mm = IF seen THEN mm ELSE PutIn(mm, key, <<l, e.st, IF e.q = "roll" THEN <<>> ELSE e.res>>)]

AgainVerdict(e) ==
  LET x == e.runs[1] IN
  Plain(IF \A k \in DOMAIN e.runs : /\ e.runs[k][1] = x[1]
                                    /\ x[1] # "ok" \/ Alike(e.q, x[2], e.runs[k][2])
        THEN {} ELSE {"not repeatable: " \o e.q}, {})

SameVerdict(e) == Plain(IF rs[e.rid] = e.res THEN {} ELSE {"returned result changed"}, {})

(* min and max of a whole program on a fresh interpreter *)
TightLine(q, p, r) ==
  LET a == IF p.ast.op = "set" THEN p.ast.a ELSE p.ast
      v == Tight(a, q, r.j)
  IN IF p.ast.op = "set" THEN [r EXCEPT !.c = PutIn(@, p.ast.n, v), !.j = AssignJ(p.ast.n, a, @), !.out = v]
     ELSE [r EXCEPT !.out = v]
TightVerdict(e) ==
  LET ps == Parsed(e.lines)
      R == RunCall(e.q, ps, Fresh, FALSE, FALSE, Anything(ps))
      r == CHOOSE x \in R : TRUE
      t == FoldLeft(LAMBDA acc, p : TightLine(e.q, p, acc), Begin(Fresh), ps)
  IN IF \E x \in R : x.err # ""
     THEN Plain(IF \E x \in R : x.err = e.st THEN {} ELSE {"error status of " \o e.q}, {})
     ELSE IF e.st # "ok" THEN Plain({"error status of " \o e.q}, {})
     ELSE IF Res(e) = PutIn(t.c, STDOUT, t.out) THEN Plain({}, {})
     ELSE IF Res(e) = PutIn(r.c, STDOUT, r.out) THEN Plain({}, {"K2"})
     ELSE Plain({e.q \o " is not the end of what can be rolled"}, {})

NestEndVerdict(e) ==
  LET ps == Parsed(e.lines)
      hidden == UNION {Hidden(ps[k].ast, FALSE) : k \in DOMAIN ps}
      full(copy) == LET f == Flat([k \in DOMAIN ps |-> ps[k].ast], copy)
                        t == FoldLeft(LAMBDA acc, p : TightLine(e.q, p, acc), Begin(Fresh), f)
                    IN PutIn(t.c, STDOUT, t.out)
      res == IF e.st = "ok" THEN Res(e) ELSE NoFun
      part(copy) == LET t == full(copy) IN DOMAIN res \subseteq DOMAIN t /\ DOMAIN t \ DOMAIN res \subseteq hidden /\ \A x \in DOMAIN res : res[x] = t[x]
  IN IF e.st = "KeyError" /\ \E k \in DOMAIN ps : Alone(ps[k].ast) \cap hidden # {} THEN Plain({}, {"K10"})
     ELSE IF e.st # "ok" THEN Plain({"error status of " \o e.q}, {})
     ELSE IF res = full(FALSE) THEN Plain({}, {})
     ELSE IF part(FALSE) THEN Plain({}, {"K10"})
     ELSE IF res = full(TRUE) THEN Plain({}, {"K8"})
     ELSE IF part(TRUE) THEN Plain({}, {"K8", "K10"})
     ELSE Plain({e.q \o " is not the end of what can be rolled"}, {})

NestCostVerdict(e) ==
  LET ps == Parsed(e.lines)
  IN Plain(IF e.st = "ok" /\ e.res = NestCost([k \in DOMAIN ps |-> ps[k].ast]) THEN {} ELSE {"cost"}, {})

(* One call on a fresh interpreter with numbers of any size.  The last line  *)
(* is judged; the lines before assign variables, each read at most once.     *)
BigCostVerdict(e) ==
  LET ps == Parsed(e.lines) IN
  Plain(IF e.st = "ok" /\ e.res = BCostOf([k \in DOMAIN ps |-> ps[k].ast]) THEN {} ELSE {"cost"}, {})

BigVerdict(e) ==
  LET ps == Parsed(e.lines)
      n == Len(ps)
      st == FoldLeft(LAMBDA acc, k : IF ZZero(ps[k].ast, acc) THEN acc ELSE PutIn(acc, ps[k].ast.n, ZLaw(ps[k].ast, acc)),
                     NoFun, [k \in 1 .. n - 1 |-> k])
      a == ps[n].ast
      law == ZLaw(a, st)
      got == [v \in {e.res[k][1] : k \in DOMAIN e.res} |-> e.res[CHOOSE k \in DOMAIN e.res : e.res[k][1] = v][2]]
      nat == \A k \in DOMAIN e.res : BIsNat(e.res[k][1][2]) /\ BIsNat(e.res[k][2]) /\ e.res[k][2] # <<>>
      right == CASE e.q = "dist" -> Len(e.res) = Cardinality(DOMAIN law) /\ nat /\ SameLaw(got, law)
                 [] e.q = "roll" -> Len(e.res) = 1 /\ e.res[1][1] \in DOMAIN law
                 [] e.q = "min"  -> Len(e.res) = 1 /\ e.res[1][1] = ZLo(DOMAIN law)
                 [] e.q = "max"  -> Len(e.res) = 1 /\ e.res[1][1] = ZHi(DOMAIN law)
  IN IF (\E k \in 1 .. n - 1 : ps[k].ast.n \notin DOMAIN st) \/ ZZero(a, st)
     THEN Plain(IF e.st = "ZeroDivisionError" \/ (e.q = "roll" /\ e.st = "ok") THEN {} ELSE {"error status of " \o e.q}, {})
     ELSE IF e.st # "ok" THEN Plain({"error status of " \o e.q}, {})
     ELSE Plain(IF right THEN {} ELSE {"result of " \o e.q}, {})

-----------------------------------------------------------------------------
(* text *)
IsInfix(w, t) == \E i \in 0 .. Len(t) - Len(w) : \A k \in 1 .. Len(w) : t[i + k] = w[k]
Dashes(n) == [k \in 1 .. n |-> "-"]
SeqSet(x) == {x[k] : k \in DOMAIN x}
EndText == <<"$", "e", "n", "d">>
BadDie(t) == t.k \in {"DICE", "DROP_KEEP_DICE"} /\ DOMAIN DiceLit(t.w).sides = {}

MessageClauses(e, p) ==
  CASE p.st = "lex" ->
         LET c == CaretReport(e.t, p.at) IN
         IF e.msg = c.quote \o <<"\n">> \o Dashes(c.caret) \o <<"^">> THEN {} ELSE {"caret report"}
    [] p.st = "syntax" ->
         IF \E k \in DOMAIN p.toks : k < p.at /\ BadDie(p.toks[k]) THEN {}
         ELSE IF p.at > Len(p.toks)
              THEN IF "$end" \in SeqSet(e.words) THEN {} ELSE {"named token"}
              ELSE IF /\ p.toks[p.at].k \in SeqSet(e.words)
                      /\ IsInfix(<<"(">> \o p.toks[p.at].w \o <<")">>, e.msg)
                      /\ p.toks[p.at].p - 1 \in SeqSet(e.nums)
                   THEN {} ELSE {"named token"}
    [] OTHER -> {}
ParseVerdict(e) ==
  LET p == Parse(e.t) IN
  IF p.st = "ok" THEN Plain(IF e.st = "ok" THEN {} ELSE {"well-formed line rejected"}, {})
  ELSE IF e.st = "ok" THEN Plain({"malformed line accepted"}, {})
  ELSE IF e.st # "ValueError" THEN Plain({"malformed line raises something else"}, {})
  ELSE Plain(IF e.lv = "err" THEN {} ELSE MessageClauses(e, p), {})

RECURSIVE Norm(_)
Norm(a) == CASE a.op = "int" -> [op |-> "int", v |-> a.v]
             [] a.op = "dice" -> LET t == a.lit IN     \* keep and drop that keep all or nothing are a sum or 0
                  IF (t.kd = "k" /\ t.m >= t.n) \/ (t.kd = "d" /\ t.m = 0)
                  THEN [op |-> "dice", lit |-> [t EXCEPT !.kd = "", !.m = 0]]
                  ELSE IF t.kd # "" /\ Summed(t) = 0 THEN [op |-> "int", v |-> 0]
                  ELSE [op |-> "dice", lit |-> t]
             [] a.op = "name" -> a
             [] a.op = "par" -> Norm(a.a)
             [] a.op \in {"not", "abs"} -> [op |-> a.op, a |-> Norm(a.a)]
             [] a.op = "set" -> [op |-> "set", n |-> a.n, a |-> Norm(a.a)]
             [] OTHER -> [op |-> a.op, o |-> a.o, l |-> Norm(a.l), r |-> Norm(a.r)]
PrintVerdict(e) ==
  LET p == Parse(e.t)
      q == Parse(e.s)
  IN IF p.st # "ok" THEN Plain({}, {})
     ELSE IF e.st # "ok" THEN Plain({"well-formed line rejected"}, {})
     ELSE Plain((IF q.st = "ok" /\ Norm(q.ast) = Norm(p.ast) THEN {} ELSE {"text form means something else"})
                \cup (IF e.st2 = "ok" THEN {} ELSE {"text form is not a valid line"})
                \cup (IF e.st2 = "ok" /\ e.s2 # e.s THEN {"text form changes when parsed again"} ELSE {})
                \cup (IF e.st2 = "ok" /\ e.a # e.b THEN {"behaviour changes when parsed again"} ELSE {})
                \cup (IF SeqSet(e.vars) = Reads(p.ast) THEN {} ELSE {"contained variables"}), {})

-----------------------------------------------------------------------------
(* figures, charts, frequencies *)
FigsVerdict(e) ==
  Plain(UNION {{c \o " (" \o e.items[k].src \o ")" : c \in FigureClauses(e.items[k])} : k \in DOMAIN e.items}, {})

\* what is drawn lies inside the axes, on linear scales (reals in units of 10^-12 are whole numbers)
ZE12 == <<1, E12>>
ZTol == <<1, TolP>>
In(x, lo, hi) == ZLe(lo, ZAdd(x, ZTol)) /\ ZLe(x, ZAdd(hi, ZTol))
InWindow(w, v, y) == In(ZMul(ZFrom(v), ZE12), w[1], w[2]) /\ In(y, w[3], w[4])
Visible(e) ==
  /\ e.lin = 1 /\ Len(e.win) = 4
  /\ \A k \in DOMAIN e.bars : e.bars[k][2][2] # <<>> => InWindow(e.win, e.bars[k][1], e.bars[k][2])
  /\ \A k \in DOMAIN e.avg : In(e.avg[k], e.win[1], e.win[2])
  /\ \A c \in DOMAIN e.curves : \A k \in DOMAIN e.curves[c].pts : InWindow(e.win, e.curves[c].pts[k][1], e.curves[c].pts[k][2])

ChartVerdict(e) ==
  LET p == e.d1
      q == e.d2
      atl1(v) == AtLeast(p, v)
      atm1(v) == AtMost(p, v)
      one1(v) == At1(p, v)
      atl2(v) == AtLeast(q, v)
      atm2(v) == AtMost(q, v)
      one2(v) == At1(q, v)
      bars == IF e.kind = "hist" THEN IsBars(e.bars, p, one1)
              ELSE IF e.kind = "atl" THEN IsBars(e.bars, p, atl1)
              ELSE IF e.kind = "atm" THEN IsBars(e.bars, p, atm1)
              ELSE TRUE
      curve == CASE e.kind = "cmp"    -> Len(e.curves) = 2 /\ IsCurve(e.curves[1], p, one1, e.l1) /\ IsCurve(e.curves[2], q, one2, e.l2)
                 [] e.kind = "cmpatl" -> Len(e.curves) = 2 /\ IsCurve(e.curves[1], p, atl1, e.l1) /\ IsCurve(e.curves[2], q, atl2, e.l2)
                 [] e.kind = "cmpatm" -> Len(e.curves) = 2 /\ IsCurve(e.curves[1], p, atm1, e.l1) /\ IsCurve(e.curves[2], q, atm2, e.l2)
                 [] OTHER -> TRUE
      avg == e.kind \in {"hist", "atl", "atm"} =>
               Len(e.avg) = 1 /\ NearAverage(e.avg[1], p)
      diff == e.kind = "diff" => IsDiffBars(e.bars, p, q)
      diff2 == e.kind = "diff" /\ IsDrawnDiff(e.bars, p, q)
  IN IF e.st # "ok" THEN Plain({"chart raises an error"}, {})
     ELSE Plain((IF bars THEN {} ELSE {"bars"}) \cup (IF curve THEN {} ELSE {"curves"})
                \cup (IF avg THEN {} ELSE {"average mark"})
                \cup (IF diff \/ diff2 THEN {} ELSE {"difference bars"})
                \cup (IF Visible(e) THEN {} ELSE {"drawn outside the axes"})
                \cup (IF e.left = 0 THEN {} ELSE {"figure left open"})
                \cup (IF e.img = 1 THEN {} ELSE {"returned image is not the chart"})
                \cup (IF e.d1 = e.d1b /\ e.d2 = e.d2b THEN {} ELSE {"distribution changed"}),
                IF ~diff /\ diff2 THEN {IF Overlap(p, q) THEN "K5" ELSE "K6"} ELSE {})

Store(ps) == [n \in {ps[k][1] : k \in DOMAIN ps} |-> ps[CHOOSE k \in DOMAIN ps : ps[k][1] = n][2]]
FinalLaw(ps) ==
  FoldLeft(LAMBDA acc, k :
             LET a == ps[k].ast
                 j == IF a.op = "set" THEN AssignJ(a.n, a.a, acc) ELSE acc
             IN IF k < Len(ps) THEN j
                ELSE AssignJ(STDOUT, IF a.op = "set" THEN [op |-> "name", n |-> a.n] ELSE a, j),
           SureStore, [k \in DOMAIN ps |-> k])
STDOUT2 == Append(STDOUT, "2")
PairUp(law) ==
  LET o == Project(law, {STDOUT}) IN
  [s \in {PutIn(PutIn(EmptyStore, STDOUT, x[STDOUT]), STDOUT2, y[STDOUT]) : x \in DOMAIN o, y \in DOMAIN o} |->
     BMul(o[PutIn(EmptyStore, STDOUT, s[STDOUT])], o[PutIn(EmptyStore, STDOUT, s[STDOUT2])])]
\* one line that may divide by zero: the errors are counted too
ErrFreq(e, a) ==
  LET law == ErrLaw(a)
      tot == Total(law)
      seen == [v \in {e.cells[k][1][1][2] : k \in DOMAIN e.cells} |->
                 e.cells[CHOOSE k \in DOMAIN e.cells : e.cells[k][1][1][2] = v][2]]
      count(x) == IF x = RollZero THEN e.errs ELSE IF x[2] \in DOMAIN seen THEN seen[x[2]] ELSE 0
  IN /\ \A v \in DOMAIN seen : RollVal(v) \in DOMAIN law
     /\ e.errs > 0 => RollZero \in DOMAIN law
     /\ \A x \in DOMAIN law : Plausible(count(x), e.n, law[x], tot)
FreqVerdict(e) ==
  LET ps == Parsed(e.lines)
      law0 == FinalLaw(ps)
      law == IF e.pair > 0 THEN PairUp(law0) ELSE law0
      cells == [k \in DOMAIN e.cells |-> <<Store(e.cells[k][1]), e.cells[k][2]>>]
      names == Known(law)
      groups == {{n} : n \in names} \cup {{m, n} : m \in names, n \in names} \cup {names}
  IN IF e.st # "ok" THEN Plain({"roll raises an error"}, {})
     ELSE IF e.err = 1 THEN Plain(IF ErrFreq(e, ps[1].ast) THEN {} ELSE {"frequencies"}, {})
     ELSE IF e.errs > 0 THEN Plain({"roll raises an error"}, {})
     ELSE Plain(IF \E k \in DOMAIN cells : DOMAIN cells[k][1] # names THEN {"names"}
                ELSE IF \A N \in groups : FreqOn(cells, e.n, law, N) THEN {} ELSE {"frequencies"}, {})

-----------------------------------------------------------------------------
(* distribution objects combined through the Python API *)
ObjModel(e) ==
  IF e.op = "new" THEN PairLaw(e.d)
  ELSE IF e.op = "take" THEN Marginal(FinalLaw(Parsed(e.lines)), STDOUT)
  ELSE IF e.op = "not" THEN MapLaw(Not, hp[e.a])
  ELSE IF e.op = "abs" THEN MapLaw(Abs, hp[e.a])
  ELSE LET f(x, y) == Apply(e.w, x, y) IN Combine(f, hp[e.a], hp[e.b])
ObjVerdict(e) ==
  LET zero == e.op = "bin" /\ e.w = oDiv /\ 0 \in DOMAIN hp[e.b]
      make == e.op # "look" /\ ~zero
      h2 == IF make THEN PutIn(hp, e.o, ObjModel(e)) ELSE hp
      bad == {e.all[k][1] : k \in {k \in DOMAIN e.all : e.all[k][1] \in DOMAIN h2 /\ ~SameObs(e.all[k][2], h2[e.all[k][1]])}}
      st == IF zero THEN "ZeroDivisionError" ELSE "ok"
      h3 == [i \in DOMAIN h2 |->
               IF i \in bad
               THEN LET k == CHOOSE k \in DOMAIN e.all : e.all[k][1] = i
                    IN IF GoodPairs(e.all[k][2]) THEN PairLaw(e.all[k][2]) ELSE h2[i]
               ELSE h2[i]]
  IN V((IF e.st = st THEN {} ELSE {"error status"})
       \cup (IF e.o \in bad THEN {"combination"} ELSE {})
       \cup (IF bad \ {e.o} # {} THEN {"operand changed"} ELSE {}), {}, ss, rs, h3)

(* A variable of one interpreter combined with the equally named variable of *)
(* another: two different rolls.  Known finding K7: they are taken for one   *)
(* roll, so only the pairs of equal values are counted.                      *)
CrossVerdict(e) ==
  LET p == Marginal(FinalLaw(Parsed(e.lines)), STDOUT)
      q == Marginal(FinalLaw(Parsed(e.lines2)), STDOUT)
      f(x, y) == Apply(e.w, x, y)
      pq == Combine(f, p, q)
      both == DOMAIN p \cap DOMAIN q
      as == {f(v, v) : v \in both}
      one == [x \in as |-> FoldSet(LAMBDA v, acc : BAdd(acc, BMul(p[v], q[v])), <<>>, {v \in both : f(v, v) = x})]
      drawn == IF both = {} THEN e.d = <<>> ELSE SameObs(e.d, one)
      right == e.d # <<>> /\ SameObs(e.d, pq)
  IN IF e.st # "ok" THEN Plain({"combination raises an error"}, {})
     ELSE IF right THEN Plain({}, {})
     ELSE IF drawn THEN Plain({}, {"K7"}) ELSE Plain({"combination across interpreters"}, {})

(* constraint sets *)
ConOf(x) == CASE x[1] = "null" -> Null [] x[1] = "imp" -> Imp [] x[1] = "var" -> Var(x[2], SeqSet(x[3]))
ConSet(xs) == {ConOf(xs[k]) : k \in DOMAIN xs}
AsStore(names, vals) == [n \in SeqSet(names) |-> vals[CHOOSE k \in DOMAIN names : names[k] = n]]
CsetVerdict(e) ==
  LET h2 == CASE e.op = "new"  -> PutIn(hp, e.o, ConSet(e.cs))
              [] e.op = "add"  -> PutIn(hp, e.o, hp[e.o] \cup ConSet(e.cs))
              [] e.op = "comb" -> PutIn(hp, e.o, hp[e.a] \cup hp[e.b])
      wrong(x) == LET C == h2[x.id] IN
                  \/ (x.poss = 1) # Possible(C)
                  \/ x.poss = 1 /\ \E k \in DOMAIN e.space :
                       (x.ok[k] = 1) # AdmitsAll(C, AsStore(e.names, e.space[k]))
      bad == {k \in DOMAIN e.all : wrong(e.all[k])}
  IN V((IF e.st = "ok" THEN {} ELSE {"error"})
       \cup (IF \E k \in bad : e.all[k].id = e.o THEN {"merged set"} ELSE {})
       \cup (IF \E k \in bad : e.all[k].id # e.o THEN {"other set changed"} ELSE {})
       \cup (IF e.before = e.after THEN {} ELSE {"constraint changed"}), {}, ss, rs, h2)

-----------------------------------------------------------------------------
Verdict(e) ==
  CASE e.ev = "head"  -> V({}, IF e.leak = 1 THEN {"K4"} ELSE {}, NoFun, NoFun, NoFun)
    [] e.ev = "call"  -> IF e.lv = "det" THEN DetVerdict(e) ELSE CallVerdict(e)
    [] e.ev = "again" -> AgainVerdict(e)
    [] e.ev = "same"  -> SameVerdict(e)
    [] e.ev = "tight" -> TightVerdict(e)
    [] e.ev = "nest"  -> (CASE e.q = "cost" -> NestCostVerdict(e) [] e.q \in {"min", "max"} -> NestEndVerdict(e) [] OTHER -> NestVerdict(e))
    [] e.ev = "nestfail" -> NestFailVerdict(e)
    [] e.ev = "big"   -> BigVerdict(e)
    [] e.ev = "bigcost" -> BigCostVerdict(e)
    [] e.ev = "parse" -> ParseVerdict(e)
    [] e.ev = "print" -> PrintVerdict(e)
    [] e.ev = "figs"  -> FigsVerdict(e)
    [] e.ev = "chart" -> ChartVerdict(e)
    [] e.ev = "freq"  -> FreqVerdict(e)
    [] e.ev = "obj"   -> ObjVerdict(e)
    [] e.ev = "cross" -> CrossVerdict(e)
    [] e.ev = "cset"  -> CsetVerdict(e)

Init == l = 1 /\ ss = NoFun /\ rs = NoFun /\ hp = NoFun /\ mm = NoFun
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ \E v \in {Verdict(Trace[l])} :
             /\ ss' = v.ss /\ rs' = v.rs /\ hp' = v.hp /\ mm' = v.mm
             /\ v.bad \cup v.known = {} \/ PrintT("@@" \o ToJson([n |-> l, bad |-> v.bad, known |-> v.known]))
Spec == Init /\ [][Next]_vars
Accepted == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================
