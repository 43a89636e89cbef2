------------------------------ MODULE DiceText ------------------------------
(* From characters to tokens to syntax trees.  A line is a sequence of one  *)
(* character strings.  Token definitions are tried in a fixed priority at   *)
(* each position (first definition that matches wins, not the longest).     *)
EXTENDS Integers, Sequences, SequencesExt

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Lower  == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
           "r","s","t","u","v","w","x","y","z"}
Upper  == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
           "R","S","T","U","V","W","X","Y","Z"}
NameCh == Lower \cup {"_"}
Word   == Lower \cup Upper \cup Digits \cup {"_"}
Blank  == {" ", "\t", "\n", "\r", "\f", "VT", "FS", "GS", "RS", "US", "NBSP", "EMSP"}

At(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE ""
\* position just after the longest run of characters of C starting at i
RECURSIVE Run(_, _, _)
Run(t, i, C) == IF At(t, i) \in C THEN Run(t, i + 1, C) ELSE i

Boundary(t, i) == (At(t, i - 1) \in Word) # (At(t, i) \in Word)
Has(t, i, w) == /\ i + Len(w) - 1 <= Len(t)
                /\ \A k \in 1 .. Len(w) : t[i + k - 1] = w[k]
Kw(t, i, w)  == Has(t, i, w) /\ Boundary(t, i) /\ Boundary(t, i + Len(w))

(* matchers: position after the match, or 0 *)
MKw(t, i, w) == IF Kw(t, i, w) THEN i + Len(w) ELSE 0
MLit(t, i, w) == IF Has(t, i, w) THEN i + Len(w) ELSE 0
MFirst(ms) == LET S == SelectSeq(ms, LAMBDA m : m # 0) IN IF S = <<>> THEN 0 ELSE S[1]

MNat(t, i) == LET j == Run(t, i, Digits) IN IF j > i THEN j ELSE 0
MSigned(t, i) == IF At(t, i) = "-" THEN MNat(t, i + 1) ELSE MNat(t, i)
\* one entry of a side list: v, lo-hi, each with an optional *count
MEntry(t, i) ==
  LET a == MSigned(t, i)
      r == IF a # 0 /\ At(t, a) = "-" THEN MSigned(t, a + 1) ELSE 0
      b == IF r # 0 THEN r ELSE a
      m == IF b # 0 /\ At(t, b) = "*" THEN MNat(t, b + 1) ELSE 0
  IN IF a = 0 THEN 0 ELSE IF m # 0 THEN m ELSE b
RECURSIVE MList(_, _)
MList(t, i) ==   \* after "[" : entries separated by commas, optional last comma, "]"
  LET a == MEntry(t, Run(t, i, Blank)) IN
  IF a = 0 THEN 0
  ELSE LET b == Run(t, a, Blank) IN
       IF At(t, b) = "]" THEN b + 1
       ELSE IF At(t, b) # "," THEN 0
       ELSE LET c == Run(t, b + 1, Blank) IN
            IF At(t, c) = "]" THEN c + 1 ELSE MList(t, b + 1)
MDice(t, i) ==
  LET j == Run(t, i, Digits) IN
  IF At(t, j) # "d" THEN 0
  ELSE MFirst(<<MNat(t, j + 1), MLit(t, j + 1, <<"%">>), MLit(t, j + 1, <<"F">>),
                IF At(t, j + 1) = "[" THEN MList(t, j + 2) ELSE 0>>)
MDropKeep(t, i) ==
  LET j == MDice(t, i) IN
  IF j # 0 /\ At(t, j) \in {"k", "d"} THEN MNat(t, j + 1) ELSE 0
MNot(t, i) == IF At(t, i) = "!" /\ At(t, i + 1) # "=" THEN i + 1 ELSE 0
MAssign(t, i) == IF At(t, i) = "=" /\ At(t, i + 1) # "=" /\ At(t, i - 1) # "=" THEN i + 1 ELSE 0
MBinOp(t, i) == MFirst(<<MLit(t, i, <<"=", "=">>), MLit(t, i, <<"!", "=">>),
                         MLit(t, i, <<"<", "=">>), MLit(t, i, <<"<">>),
                         MLit(t, i, <<">", "=">>), MLit(t, i, <<">">>),
                         MKw(t, i, <<"A", "N", "D">>), MKw(t, i, <<"O", "R">>)>>)
MName(t, i) == LET j == Run(t, i, NameCh) IN
               IF j > i /\ Boundary(t, i) /\ Boundary(t, j) THEN j ELSE 0

TokenKinds == << "OPEN_PARENTHESIS", "CLOSE_PARENTHESIS", "COMMA", "NOT", "DROP_KEEP_DICE",
  "DICE", "BINARY_OPERATOR", "CONSTANT_INTEGER", "CONSTANT_BINARY", "ADD", "SUBTRACT",
  "MULTIPLY", "INTEGER_DIVISION", "MINMAX", "ABS", "ASSIGNMENT", "VAR", "NAME" >>

MKind(k, t, i) ==
  CASE k = "OPEN_PARENTHESIS"  -> MLit(t, i, <<"(">>)
    [] k = "CLOSE_PARENTHESIS" -> MLit(t, i, <<")">>)
    [] k = "COMMA"             -> MLit(t, i, <<",">>)
    [] k = "NOT"               -> MNot(t, i)
    [] k = "DROP_KEEP_DICE"    -> MDropKeep(t, i)
    [] k = "DICE"              -> MDice(t, i)
    [] k = "BINARY_OPERATOR"   -> MBinOp(t, i)
    [] k = "CONSTANT_INTEGER"  -> MSigned(t, i)
    [] k = "CONSTANT_BINARY"   -> MFirst(<<MKw(t, i, <<"T","r","u","e">>),
                                           MKw(t, i, <<"F","a","l","s","e">>)>>)
    [] k = "ADD"               -> MLit(t, i, <<"+">>)
    [] k = "SUBTRACT"          -> MLit(t, i, <<"-">>)
    [] k = "MULTIPLY"          -> MLit(t, i, <<"*">>)
    [] k = "INTEGER_DIVISION"  -> MLit(t, i, <<"/", "/">>)
    [] k = "MINMAX"            -> MFirst(<<MKw(t, i, <<"M","A","X">>), MKw(t, i, <<"M","I","N">>)>>)
    [] k = "ABS"               -> MKw(t, i, <<"A","B","S">>)
    [] k = "ASSIGNMENT"        -> MAssign(t, i)
    [] k = "VAR"               -> MKw(t, i, <<"V","A","R">>)
    [] k = "NAME"              -> MName(t, i)

RECURSIVE FirstKind(_, _, _)
FirstKind(t, i, n) == IF n > Len(TokenKinds) THEN <<"", 0>>
                      ELSE LET j == MKind(TokenKinds[n], t, i) IN
                           IF j # 0 THEN <<TokenKinds[n], j>> ELSE FirstKind(t, i, n + 1)

Tok(k, w, p) == [k |-> k, w |-> w, p |-> p]

RECURSIVE LexFrom(_, _, _)
LexFrom(t, i0, acc) ==
  LET i == Run(t, i0, Blank) IN
  IF i > Len(t) THEN [ok |-> TRUE, toks |-> acc, at |-> 0]
  ELSE LET m == FirstKind(t, i, 1) IN
       IF m[2] = 0 THEN [ok |-> FALSE, toks |-> acc, at |-> i]
       ELSE LexFrom(t, m[2], Append(acc, Tok(m[1], SubSeq(t, i, m[2] - 1), i)))
Lex(t) == LexFrom(t, 1, <<>>)

(* The report for a character that starts no token: the source line it is on,*)
(* 50 characters either side, and a caret under it.                          *)
LastNewline(t, i) == LET S == {k \in 1 .. i - 1 : t[k] = "\n"} IN
                     IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
NextNewline(t, i) == LET S == {k \in i .. Len(t) : t[k] = "\n"} IN
                     IF S = {} THEN Len(t) + 1 ELSE CHOOSE k \in S : \A j \in S : k <= j
CaretReport(t, i) ==
  LET b == LastNewline(t, i)
      line == SubSeq(t, b + 1, NextNewline(t, i) - 1)
      col == i - b - 1                       \* 0 based column
      from == IF col > 50 THEN col - 50 ELSE 0
      to == IF col + 50 < Len(line) THEN col + 50 ELSE Len(line)
  IN [quote |-> SubSeq(line, from + 1, to), caret |-> col - from]

-----------------------------------------------------------------------------
(* numbers and dice literals *)
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
(* TLC integers have 32 bits: a longer number is Vast here, and BigInt reads *)
(* its text instead                                                          *)
Vast == 2147480000
NatOf(s) == LET z == Run(s, 1, {"0"}) IN
            IF Len(s) - z + 1 > 9 THEN Vast ELSE FoldLeft(LAMBDA acc, c : acc * 10 + DigitVal(c), 0, s)
IntOf(s) == IF At(s, 1) = "-" THEN -NatOf(Tail(s)) ELSE NatOf(s)

RECURSIVE Entries(_, _)
Entries(t, i0) ==   \* entries <<lo, hi, count>> of a side list from position i0 (after "[")
  LET i == Run(t, i0, Blank \cup {","}) IN
  IF At(t, i) = "]" THEN <<>>
  ELSE LET a == MSigned(t, i)
           r == IF At(t, a) = "-" THEN MSigned(t, a + 1) ELSE 0
           b == IF r # 0 THEN r ELSE a
           m == IF At(t, b) = "*" THEN MNat(t, b + 1) ELSE 0
           x == IntOf(SubSeq(t, i, a - 1))
           y == IF r # 0 THEN IntOf(SubSeq(t, a + 1, r - 1)) ELSE x
           n == IF m # 0 THEN NatOf(SubSeq(t, b + 1, m - 1)) ELSE 1
       IN <<<<IF x < y THEN x ELSE y, IF x < y THEN y ELSE x, n>>>>
          \o Entries(t, IF m # 0 THEN m ELSE b)

EntrySides(es) == {v \in UNION {es[k][1] .. es[k][2] : k \in DOMAIN es} :
                     \E k \in DOMAIN es : es[k][3] > 0 /\ es[k][1] <= v /\ v <= es[k][2]}
EntryCount(es, v) == FoldLeft(LAMBDA acc, e : IF e[1] <= v /\ v <= e[2] THEN acc + e[3] ELSE acc, 0, es)

(* [n |-> number of dice, sides |-> value -> multiplicity, kd |-> ""|"k"|"d", m |-> amount] *)
DiceLit(w) ==
  LET j == Run(w, 1, Digits)
      n == IF j = 1 THEN 1 ELSE NatOf(SubSeq(w, 1, j - 1))
      e == MDice(w, 1)
      c == At(w, j + 1)
      sides == CASE c = "%" -> [v \in 1 .. 100 |-> 1]
                 [] c = "F" -> [v \in {-1, 0, 1} |-> 1]
                 [] c = "[" -> LET es == Entries(w, j + 2) IN [v \in EntrySides(es) |-> EntryCount(es, v)]
                 [] OTHER   -> [v \in 1 .. NatOf(SubSeq(w, j + 1, e - 1)) |-> 1]
  IN [n |-> n, sides |-> sides,
      kd |-> IF e > Len(w) THEN "" ELSE w[e],
      m |-> IF e > Len(w) THEN 0 ELSE NatOf(SubSeq(w, e + 1, Len(w)))]

-----------------------------------------------------------------------------
(* syntax trees and the grammar *)
BinPrec(k) == CASE k = "BINARY_OPERATOR" -> 3
                [] k \in {"MULTIPLY", "INTEGER_DIVISION"} -> 2
                [] k \in {"ADD", "SUBTRACT"} -> 1
                [] OTHER -> 0

Kind(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "$end"
Good(a, i) == [ok |-> TRUE, ast |-> a, i |-> i]
Bad(i) == [ok |-> FALSE, ast |-> <<>>, i |-> i]

RECURSIVE PExpr(_, _, _), PRest(_, _, _, _), PPrim(_, _)
PExpr(ts, i, p) == LET a == PPrim(ts, i) IN IF ~a.ok THEN a ELSE PRest(ts, a.ast, a.i, p)
PRest(ts, lhs, i, p) ==
  LET q == BinPrec(Kind(ts, i)) IN
  IF q = 0 \/ q < p THEN Good(lhs, i)
  ELSE LET r == PExpr(ts, i + 1, q + 1) IN
       IF ~r.ok THEN r
       ELSE PRest(ts, [op |-> "bin", o |-> ts[i].w, l |-> lhs, r |-> r.ast], r.i, p)
PPrim(ts, i) ==
  LET k == Kind(ts, i) IN
  CASE k = "CONSTANT_INTEGER" -> Good([op |-> "int", v |-> IntOf(ts[i].w), w |-> ts[i].w], i + 1)
    [] k = "CONSTANT_BINARY"  -> Good([op |-> "int", v |-> IF ts[i].w = <<"T","r","u","e">> THEN 1 ELSE 0,
                                       w |-> ts[i].w], i + 1)
    [] k \in {"DICE", "DROP_KEEP_DICE"} -> Good([op |-> "dice", w |-> ts[i].w, lit |-> DiceLit(ts[i].w)], i + 1)
    [] k = "NAME" -> Good([op |-> "name", n |-> ts[i].w], i + 1)
    [] k = "NOT" -> LET a == PExpr(ts, i + 1, 0) IN
                    IF ~a.ok THEN a ELSE Good([op |-> "not", a |-> a.ast], a.i)
    [] k = "VAR" -> IF Kind(ts, i + 1) # "NAME" THEN Bad(i + 1)
                    ELSE IF Kind(ts, i + 2) # "ASSIGNMENT" THEN Bad(i + 2)
                    ELSE LET a == PExpr(ts, i + 3, 0) IN
                         IF ~a.ok THEN a
                         ELSE Good([op |-> "set", n |-> ts[i + 1].w, a |-> a.ast], a.i)
    [] k = "OPEN_PARENTHESIS" ->
         LET a == PExpr(ts, i + 1, 0) IN
         IF ~a.ok THEN a ELSE IF Kind(ts, a.i) # "CLOSE_PARENTHESIS" THEN Bad(a.i)
         ELSE Good([op |-> "par", a |-> a.ast], a.i + 1)
    [] k = "ABS" ->
         IF Kind(ts, i + 1) # "OPEN_PARENTHESIS" THEN Bad(i + 1)
         ELSE LET a == PExpr(ts, i + 2, 0) IN
              IF ~a.ok THEN a ELSE IF Kind(ts, a.i) # "CLOSE_PARENTHESIS" THEN Bad(a.i)
              ELSE Good([op |-> "abs", a |-> a.ast], a.i + 1)
    [] k = "MINMAX" ->
         IF Kind(ts, i + 1) # "OPEN_PARENTHESIS" THEN Bad(i + 1)
         ELSE LET a == PExpr(ts, i + 2, 0) IN
              IF ~a.ok THEN a ELSE IF Kind(ts, a.i) # "COMMA" THEN Bad(a.i)
              ELSE LET b == PExpr(ts, a.i + 1, 0) IN
                   IF ~b.ok THEN b ELSE IF Kind(ts, b.i) # "CLOSE_PARENTHESIS" THEN Bad(b.i)
                   ELSE Good([op |-> "mm", o |-> ts[i].w, l |-> a.ast, r |-> b.ast], b.i + 1)
    [] OTHER -> Bad(i)

RECURSIVE NoSides(_)
NoSides(a) == CASE a.op = "dice" -> DOMAIN a.lit.sides = {}
                [] a.op \in {"int", "name"} -> FALSE
                [] a.op \in {"not", "par", "abs", "set"} -> NoSides(a.a)
                [] OTHER -> NoSides(a.l) \/ NoSides(a.r)

(* [st |-> "ok" | "lex" | "syntax" | "sides", ast, at]:                       *)
(*  at is a character position for "lex", a token index for "syntax"          *)
Parse(t) ==
  LET x == Lex(t) IN
  IF ~x.ok THEN [st |-> "lex", ast |-> <<>>, at |-> x.at, toks |-> x.toks]
  ELSE LET e == PExpr(x.toks, 1, 0) IN
       IF ~e.ok THEN [st |-> "syntax", ast |-> <<>>, at |-> e.i, toks |-> x.toks]
       ELSE IF e.i <= Len(x.toks) THEN [st |-> "syntax", ast |-> <<>>, at |-> e.i, toks |-> x.toks]
       ELSE IF NoSides(e.ast) THEN [st |-> "sides", ast |-> <<>>, at |-> 0, toks |-> x.toks]
       ELSE [st |-> "ok", ast |-> e.ast, at |-> 0, toks |-> x.toks]

(* the canonical text of a tree *)
RECURSIVE Show(_)
Show(a) ==
  CASE a.op \in {"int", "dice"} -> a.w
    [] a.op = "name" -> a.n
    [] a.op = "par" -> <<"(">> \o Show(a.a) \o <<")">>
    [] a.op = "not" -> <<"!">> \o Show(a.a)
    [] a.op = "abs" -> <<"A","B","S","(">> \o Show(a.a) \o <<")">>
    [] a.op = "mm" -> a.o \o <<"(">> \o Show(a.l) \o <<",", " ">> \o Show(a.r) \o <<")">>
    [] a.op = "bin" -> Show(a.l) \o <<" ">> \o a.o \o <<" ">> \o Show(a.r)
    [] a.op = "set" -> <<"V","A","R"," ">> \o a.n \o <<" ", "=", " ">> \o Show(a.a)

RECURSIVE Reads(_)
Reads(a) == CASE a.op \in {"int", "dice", "set"} -> {}
              [] a.op = "name" -> {a.n}
              [] a.op \in {"par", "not", "abs"} -> Reads(a.a)
              [] OTHER -> Reads(a.l) \cup Reads(a.r)

RECURSIVE HasSet(_)
HasSet(a) == CASE a.op \in {"int", "dice", "name"} -> FALSE
               [] a.op = "set" -> TRUE
               [] a.op \in {"par", "not", "abs"} -> HasSet(a.a)
               [] OTHER -> HasSet(a.l) \/ HasSet(a.r)
=============================================================================
