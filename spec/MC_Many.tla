------------------------------ MODULE MC_Many ------------------------------
(* Several interpreters whose calls are under way at the same time.  The     *)
(* step is one line of one call; calls of different interpreters overlap in  *)
(* every way.  An interpreter works on a store; two may have been given the  *)
(* same one.  Checked: a call is as good as atomic for an interpreter with a *)
(* store of its own, whatever the others do; no step touches a store it does *)
(* not work on; two on one store see each other's complete lines only.       *)
(* Prints the schedules: they are played on the real code.                   *)
EXTENDS Interp, Json, IOUtils, TLC

Tier == IOEnv.TIER
Emit == IOEnv.PRINT = "1"
Is == {1, 2}
MaxCalls == 1

Va == <<"V","A","R"," ","a"," ","="," ">>
Vb == <<"V","A","R"," ","b"," ","="," ">>
Menu == {<<Va \o <<"d","2">>, Vb \o <<"a">>, <<"b"," ","-"," ","a">>>>,
         <<Va \o <<"1">>, Va \o <<"a"," ","+"," ","1">>, <<"a">>>>,
         <<Vb \o <<"d","3">>, Va \o <<"b"," ","*"," ","b">>>>,
         <<Va \o <<"3">>, <<"n">>>>}
        \cup (IF Tier = "quick" THEN {} ELSE
              {<<Vb \o <<"2">>, <<"b"," ","/","/"," ","0">>>>, <<<<"a">>, Va \o <<"d","2">>>>, <<Va \o <<"d","2">>, <<"1"," ","+">>>>})
Parsed == [p \in Menu |-> [k \in DOMAIN p |-> Parse(p[k])]]
Queries == IF Tier = "quick" THEN {"dist", "max"} ELSE {"dist", "max", "roll"}

Idle == [on |-> FALSE]
VARIABLES st,     \* store -> its content
          of,     \* interpreter -> store
          run,    \* interpreter -> the call under way
          left,   \* interpreter -> calls it may still start
          sched   \* what happened, in order
vars == <<st, of, run, left, sched>>

Init == /\ of \in {f \in [Is -> Is] : \A i \in Is : f[i] <= i /\ f[f[i]] = f[i]}     \* who shares with whom
        /\ st = [i \in Is |-> Fresh]
        /\ run = [i \in Is |-> Idle]
        /\ left = [i \in Is |-> MaxCalls]
        /\ sched = <<>>

Begins(i, q, p) ==
  /\ ~run[i].on /\ left[i] > 0
  /\ run' = [run EXCEPT ![i] = [on |-> TRUE, q |-> q, p |-> p, k |-> 1, from |-> st[of[i]], loc |-> Begin(Fresh)]]
  /\ left' = [left EXCEPT ![i] = @ - 1]
  /\ sched' = Append(sched, <<i, q, p>>)
  /\ UNCHANGED <<st, of>>

\* the call's own part (out, err, k) over the store as it is now
Now(i) == LET s == st[of[i]] IN [run[i].loc EXCEPT !.c = s.c, !.j = s.j, !.h = s.h]
Line(i) ==
  /\ run[i].on /\ run[i].k <= Len(run[i].p) /\ run[i].loc.err = ""
  /\ \E r \in LineStep(run[i].q, Parsed[run[i].p][run[i].k], Now(i), FALSE, FALSE, {}) :
       /\ st' = [st EXCEPT ![of[i]] = Leave(r)]
       /\ run' = [run EXCEPT ![i].k = @ + 1, ![i].loc = r]
  /\ sched' = Append(sched, <<i>>)
  /\ UNCHANGED <<of, left>>

Over(i) == run[i].on /\ (run[i].k > Len(run[i].p) \/ run[i].loc.err # "")
Ends(i) == /\ Over(i)
           /\ run' = [run EXCEPT ![i] = Idle]
           /\ UNCHANGED <<st, of, left, sched>>

AllDone == \A i \in Is : ~run[i].on /\ left[i] = 0
Alone == \A i, k \in Is : of[i] = of[k] => i = k
PrintSched == /\ AllDone /\ Alone /\ Emit
              /\ PrintT("@@OPS " \o ToJson([sched |-> sched]))
              /\ UNCHANGED vars
Next == \/ \E i \in Is : Line(i) \/ Ends(i) \/ \E q \in Queries, p \in Menu : Begins(i, q, p)
        \/ PrintSched
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* an interpreter with a store of its own: the call gives what it gives when nothing else runs
OwnStore(i) == \A k \in Is : of[k] = of[i] => k = i
AsIfAlone == \A i \in Is : Over(i) /\ OwnStore(i) =>
               \E r \in RunCall(run[i].q, Parsed[run[i].p], run[i].from, FALSE, FALSE, Anything(run[i].p)) :
                  r.out = run[i].loc.out /\ r.err = run[i].loc.err /\ Leave(r) = st[of[i]]
\* a step changes the store worked on and no other, and at most the name assigned
Frame == [][\A s \in Is : st'[s] # st[s] =>
              \E i \in Is : /\ of[i] = s /\ run[i].on /\ run'[i].on /\ run'[i].k = run[i].k + 1
                            /\ LET a == Parsed[run[i].p][run[i].k].ast IN
                               \A n \in DOMAIN st[s].c : a.n # n => n \in DOMAIN st'[s].c /\ st'[s].c[n] = st[s].c[n]]_vars
\* the line under way fails: nothing is changed
FailClean == [][\A i \in Is : run[i].on /\ run'[i].on /\ run'[i].loc.err # run[i].loc.err => st' = st]_vars
=============================================================================
