----------------------------- MODULE MC_Session -----------------------------
(* Interpreters as state machines: every sequence of calls over a menu of    *)
(* lines.  Checks what a call may and may not do to the two stores, that a   *)
(* failing line changes nothing while earlier lines keep their effect, and   *)
(* that a program which assigns what it reads gives the same answers in      *)
(* every state.  Prints the transitions: histories for the real code.        *)
EXTENDS Interp, Json, IOUtils, TLC

Tier == IOEnv.TIER
Emit == IOEnv.PRINT = "1"
MaxLen == 3

\* the menu: assignments, reads in every reading, errors of every class
Menu ==
  LET x == IF Tier = "quick" THEN {} ELSE
        {<<"V","A","R"," ","b"," ","="," ","M","A","X","(","a",","," ","2",")">>,
         <<"V","A","R"," ","a"," ","="," ","(","b",")">>,
         <<"V","A","R"," ","b"," ","="," ","n">>,
         <<"M","I","N","(","a",","," ","b",")">>,
         <<"4"," ","/","/"," ","a">>, <<"!","a">>}
  IN {<<"V","A","R"," ","a"," ","="," ","d","2">>,
      <<"V","A","R"," ","a"," ","="," ","0">>,
      <<"V","A","R"," ","b"," ","="," ","a">>,
      <<"V","A","R"," ","a"," ","="," ","a"," ","+"," ","1">>,
      <<"V","A","R"," ","b"," ","="," ","2"," ","/","/"," ","a">>,
      <<"a">>, <<"(","b",")">>, <<"a"," ","+"," ","b">>, <<"M","A","X","(","a",","," ","1",")">>,
      <<"d","2">>, <<"n">>, <<"1"," ","/","/"," ","0">>, <<"1"," ","+">>, <<"V","A","R"," ","a"," ","="," ","d","0">>} \cup x
Parsed == [t \in Menu |-> Parse(t)]
Queries == {"roll", "min", "max", "dist", "cost"}
\* one line, or one line after an assignment
Firsts == {t \in Menu : Parsed[t].st = "ok" /\ Parsed[t].ast.op = "set"}
Programs == {<<t>> : t \in Menu} \cup (IF Tier = "quick" THEN {} ELSE {<<t, u>> : t \in Firsts, u \in Menu})
PsOf(p) == [k \in DOMAIN p |-> Parsed[p[k]]]

VARIABLES s, hist
vars == <<s, hist>>

Init == s = Fresh /\ hist = <<>>
Calls(q, p) == RunCall(q, PsOf(p), s, FALSE, FALSE, Anything(p))
Call(q, p) == \E r \in Calls(q, p) :
   /\ s' = Leave(r)
   /\ hist' = Append(hist, <<q, p>>)
   /\ ~Emit \/ PrintT("@@OPS " \o ToJson([calls |-> hist']))
Next == Len(hist) < MaxLen /\ \E q \in Queries, p \in Programs : Call(q, p)
Spec == Init /\ [][Next]_vars
\* two histories that lead to the same state are one state
View == <<s.c, s.j, Len(hist)>>
Small == \A n \in DOMAIN s.c : s.c[n] <= 3

-----------------------------------------------------------------------------
TypeOK == /\ \A n \in DOMAIN s.c : s.c[n] \in Int
          /\ \A st \in DOMAIN s.j : DOMAIN st = Known(s.j)
          /\ {s.h[k][1] : k \in DOMAIN s.h} = Known(s.j)

LastCall == hist'[Len(hist')]
\* C11: a roll or a cost never touches the distribution store, a probability query never the value store,
\* a cost touches nothing
Separate == [][hist' # hist =>
                 /\ LastCall[1] \in {"roll", "cost"} => s'.j = s.j /\ s'.h = s.h
                 /\ LastCall[1] = "dist" => s'.c = s.c
                 /\ LastCall[1] = "cost" => s' = s]_vars
\* a name is never forgotten; only assigned names change
Changed(p) == {PsOf(p)[k].ast.n : k \in {k \in DOMAIN p : Parsed[p[k]].st = "ok" /\ Parsed[p[k]].ast.op = "set"}}
OnlyAssigned == [][hist' # hist =>
                     /\ DOMAIN s.c \subseteq DOMAIN s'.c
                     /\ Known(s.j) \subseteq Known(s'.j)
                     /\ \A n \in DOMAIN s.c : s'.c[n] # s.c[n] => n \in Changed(LastCall[2])
                     /\ \A n \in Known(s.j) : ~SameLaw(Marginal(s'.j, n), Marginal(s.j, n)) => n \in Changed(LastCall[2])]_vars
\* failing: the state is the one after the lines before the failing one
FailClean == \A q \in Queries, p \in Programs :
  \A r \in Calls(q, p) : r.err # "" =>
    \E k \in 0 .. Len(p) - 1 : \E x \in RunCall(q, SubSeq(PsOf(p), 1, k), s, FALSE, FALSE, Anything(p)) :
      x.err = "" /\ Leave(x) = Leave(r)
\* a malformed line always fails, whatever the state
Malformed == \A q \in Queries, t \in Menu : Parsed[t].st # "ok" =>
  \A r \in Calls(q, <<t>>) : r.err = "ValueError" /\ Leave(r) = s
\* C12: a program that assigns what it reads does not see the state
SelfContained == {<<t, u>> : t \in {<<"V","A","R"," ","a"," ","="," ","d","2">>},
                             u \in {<<"a">>, <<"V","A","R"," ","b"," ","="," ","2"," ","/","/"," ","a">>,
                                    <<"V","A","R"," ","a"," ","="," ","a"," ","+"," ","1">>, <<"M","A","X","(","a",","," ","1",")">>}}
Like(q, x, y) == IF q = "dist" THEN SameLaw(x, y) ELSE x = y
Stateless == \A q \in {"min", "max", "dist", "cost"}, p \in SelfContained :
  \A r \in Calls(q, p), x \in RunCall(q, PsOf(p), Fresh, FALSE, FALSE, Anything(p)) :
    r.err = x.err /\ (r.err = "" => Like(q, r.out, x.out))
\* asking again changes no answer
Again == \A q \in {"min", "max", "dist", "cost"}, p \in SelfContained :
  \A r \in Calls(q, p) : \A x \in RunCall(q, PsOf(p), Leave(r), FALSE, FALSE, Anything(p)) :
    r.err = x.err /\ (r.err = "" => Like(q, r.out, x.out))
=============================================================================
