------------------------------ MODULE MC_Text ------------------------------
(* Every line of up to MaxLen tokens.  Checks the grammar: grouping, spacing,*)
(* text form, and that the reported token of a malformed line is the first   *)
(* one that no valid line can have there.  Prints the lines for the real     *)
(* code.                                                                     *)
EXTENDS DiceText, FiniteSets, Json, IOUtils, TLC

Tier == IOEnv.TIER
Emit == IOEnv.PRINT = "1"
MaxLen == IF Tier = "quick" THEN 3 ELSE 4

Tokens == {<<"1">>, <<"a">>, <<"d", "6">>, <<"+">>, <<"*">>, <<"=", "=">>, <<"!">>, <<"(">>, <<")">>,
           <<",">>, <<"M", "A", "X">>, <<"A", "B", "S">>, <<"V", "A", "R">>, <<"=">>}
          \cup IF Tier = "quick" THEN {} ELSE {<<"-", "2">>, <<"2", "d", "3", "k", "1">>}

VARIABLE line   \* sequence of token texts
RECURSIVE Join(_, _)
Join(ts, sep) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(Tail(ts), sep)
Text(ts) == Join(ts, <<" ">>)
P == Parse(Text(line))

Init == line = <<>>
Next == /\ Len(line) < MaxLen
        /\ \E t \in Tokens :
             /\ line' = Append(line, t)
             /\ ~Emit \/ Len(line) > 2 \/ PrintT("@@OPS " \o ToJson([text |-> Text(line')]))
Spec == Init /\ [][Next]_line

-----------------------------------------------------------------------------
RECURSIVE Norm(_), Full(_)
Norm(x) == CASE x.op \in {"int", "dice", "name"} -> x
             [] x.op = "par" -> Norm(x.a)
             [] x.op \in {"not", "abs"} -> [op |-> x.op, a |-> Norm(x.a)]
             [] x.op = "set" -> [op |-> "set", n |-> x.n, a |-> Norm(x.a)]
             [] OTHER -> [op |-> x.op, o |-> x.o, l |-> Norm(x.l), r |-> Norm(x.r)]
\* every operand in brackets
Br(t) == <<"(">> \o t \o <<")">>
Full(x) == CASE x.op \in {"int", "dice"} -> x.w
             [] x.op = "name" -> x.n
             [] x.op = "par" -> Full(x.a)
             [] x.op = "not" -> <<"!">> \o Br(Full(x.a))
             [] x.op = "abs" -> <<"A", "B", "S">> \o Br(Full(x.a))
             [] x.op = "mm" -> x.o \o Br(Full(x.l) \o <<",">> \o Full(x.r))
             [] x.op = "set" -> <<"V", "A", "R", " ">> \o x.n \o <<"=">> \o Br(Full(x.a))
             [] OTHER -> Br(Full(x.l)) \o <<" ">> \o x.o \o <<" ">> \o Br(Full(x.r))

\* each token is read back as itself
Tokenised == LET x == Lex(Text(line)) IN x.ok /\ [k \in DOMAIN x.toks |-> x.toks[k].w] = line
\* C10: brackets are redundant, spacing is irrelevant, blanks at the ends are irrelevant
Brackets == P.st = "ok" => LET q == Parse(Full(P.ast)) IN q.st = "ok" /\ Norm(q.ast) = Norm(P.ast)
Spacing == \A sep \in {<<" ", " ">>, <<"\t">>, <<"\n", " ">>} :
             LET q == Parse(Join(line, sep)) IN q.st = P.st /\ q.ast = P.ast
Around == LET q == Parse(<<" ", "\n">> \o Text(line) \o <<"\t">>) IN q.st = P.st /\ q.ast = P.ast
\* C10: an operand chain x o1 y o2 z is grouped to the left unless o2 binds tighter
OpTokens == {<<"+">>, <<"*">>, <<"=", "=">>}
Binds(o) == CASE o = <<"+">> -> 1 [] o = <<"*">> -> 2 [] o = <<"=", "=">> -> 3
ASSUME \A x, y, z \in {<<"1">>, <<"a">>} : \A o1, o2 \in OpTokens :
           LET q == Parse(Text(<<x, o1, y, o2, z>>)).ast IN
           IF Binds(o2) > Binds(o1) THEN q.o = o1 /\ q.r.op = "bin" /\ q.r.o = o2
           ELSE q.o = o2 /\ q.l.op = "bin" /\ q.l.o = o1
\* C15: the text form
Shown == P.st = "ok" => LET t == Show(P.ast) q == Parse(t) IN
                        q.st = "ok" /\ Norm(q.ast) = Norm(P.ast) /\ Show(q.ast) = t
\* C17: the reported token
\* continue the tokens to a valid line, taking the first token of a fixed list that can stand there
Fill == << <<")">>, <<",">>, <<"=">>, <<"1">>, <<"a">>, <<"(">> >>
RECURSIVE Completes(_, _)
Completes(ts, n) ==
  LET p == Parse(Text(ts)) IN
  IF p.st = "ok" THEN TRUE
  ELSE IF n = 0 \/ p.at <= Len(ts) THEN FALSE
  ELSE LET fits(k) == LET q == Parse(Text(Append(ts, Fill[k]))) IN q.st = "ok" \/ q.at > Len(ts) + 1
           K == {k \in DOMAIN Fill : fits(k)}
       IN K # {} /\ Completes(Append(ts, Fill[CHOOSE k \in K : \A m \in K : k <= m]), n - 1)
Reported == P.st = "syntax" =>
  /\ Completes(SubSeq(line, 1, P.at - 1), 30)
  /\ P.at <= Len(line) => \A s \in Tokens : Parse(Text(Append(line, s))).st = "syntax" /\ Parse(Text(Append(line, s))).at = P.at
\* a character that starts no token, put anywhere between the tokens
Caret == \A k \in 0 .. Len(line) :
  LET t == Text(SubSeq(line, 1, k)) \o <<" ", "$", " ">> \o Text(SubSeq(line, k + 1, Len(line)))
      q == Parse(t)
      c == CaretReport(t, q.at)
  IN q.st = "lex" /\ t[q.at] = "$" /\ c.quote[c.caret + 1] = "$"
=============================================================================
