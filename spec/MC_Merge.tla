------------------------------ MODULE MC_Merge ------------------------------
(* Constraint sets as objects: made, extended and combined in any order.     *)
(* The model keeps for every object the set of constraints put in (meaning)  *)
(* and one merged representation per order the merge loop might take.  Every *)
(* representation must agree with the meaning.  Prints the behaviours.       *)
EXTENDS Constraints, Sequences, Json, IOUtils, TLC

Tier == IOEnv.TIER
Emit == IOEnv.PRINT = "1"
Names == {"x", "y"}
Vals == {0, 1, 2}
Choices == {{}, {0}, {1}, {0, 1}, {1, 2}} \cup IF Tier = "quick" THEN {} ELSE {{2}, {0, 1, 2}}
Cons == {Null, Imp} \cup {Var(n, V) : n \in Names, V \in Choices}
Space == [Names -> Vals]
MaxLen == IF Tier = "quick" THEN 3 ELSE 4

VARIABLES put,    \* object -> constraints put in
          reps,   \* object -> possible merged representations
          hist
vars == <<put, reps, hist>>
NoFun == [x \in {} |-> 0]
Init == put = NoFun /\ reps = NoFun /\ hist = <<>>
With(f, k, v) == [m \in DOMAIN f \cup {k} |-> IF m = k THEN v ELSE f[m]]
Record(op) == /\ hist' = Append(hist, op)
              /\ ~Emit \/ PrintT("@@OPS " \o ToJson([ops |-> hist']))
Fresh == Cardinality(DOMAIN put) + 1
\* a new set made from one constraint or none (an empty set of constraints admits everything)
New(c) == /\ Fresh <= 2
          /\ put' = With(put, Fresh, {c})
          /\ reps' = With(reps, Fresh, MergeAny(c, {}))
          /\ Record(<<"new", Fresh, c>>)
Add(o, c) == /\ put' = With(put, o, put[o] \cup {c})
             /\ reps' = With(reps, o, UNION {MergeAny(c, S) : S \in reps[o]})
             /\ Record(<<"add", o, c>>)
Comb(o, p) == /\ Fresh <= 3
              /\ put' = With(put, Fresh, put[o] \cup put[p])
              /\ reps' = With(reps, Fresh, UNION {UNION {BuildAny(S \cup T, {}) : T \in reps[p]} : S \in reps[o]})
              /\ Record(<<"comb", Fresh, o, p>>)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E c \in Cons : New(c)
           \/ \E o \in DOMAIN put, c \in Cons : Add(o, c)
           \/ \E o \in DOMAIN put, p \in DOMAIN put : Comb(o, p)
Spec == Init /\ [][Next]_vars
View == <<put, reps>>

-----------------------------------------------------------------------------
Judged == \A o \in DOMAIN put : \A S \in reps[o] :
  /\ SelfPossible(S) = Possible(put[o])
  /\ Possible(put[o]) => \A a \in Space : SelfComplies(S, a) = AdmitsAll(put[o], a)
  /\ ~Possible(put[o]) => \A a \in Space : ~AdmitsAll(put[o], a)
\* one constraint per name at most, or impossible
Merged == \A o \in DOMAIN put : \A S \in reps[o] : \A c, d \in S : c[1] = "var" /\ d[1] = "var" /\ c[2] = d[2] => c = d
\* once impossible, always impossible; other objects untouched
Stays == [][\A o \in DOMAIN put : ~Possible(put[o]) => ~Possible(put'[o])]_vars
Touch == [][\A o \in DOMAIN put : put'[o] # put[o] => hist'[Len(hist')][1] = "add" /\ hist'[Len(hist')][2] = o]_vars
=============================================================================
