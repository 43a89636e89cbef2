---------------------------- MODULE Constraints ----------------------------
(* Constraints on variables.  <<"null">> admits everything, <<"imp">>        *)
(* nothing, <<"var", n, V>> the assignments giving n a value of V.           *)
EXTENDS Integers, Sequences, FiniteSets

Null == <<"null">>
Imp == <<"imp">>
Var(n, V) == <<"var", n, V>>

Admits(c, s) == CASE c[1] = "null" -> TRUE
                  [] c[1] = "imp"  -> FALSE
                  [] c[1] = "var"  -> s[c[2]] \in c[3]
AdmitsAll(C, s) == \A c \in C : Admits(c, s)
NamesOf(C) == {c[2] : c \in {d \in C : d[1] = "var"}}
LeftFor(C, n) == {v \in UNION {c[3] : c \in {d \in C : d[1] = "var" /\ d[2] = n}} :
                    \A c \in C : (c[1] = "var" /\ c[2] = n) => v \in c[3]}
Possible(C) == Imp \notin C /\ \A n \in NamesOf(C) : LeftFor(C, n) # {}

(* The merge loop of the implementation: a new constraint is merged with     *)
(* some member it can merge with (whichever the iteration order of a Python  *)
(* set offers first), and the result is treated as new again.  The operators *)
(* give the set of all possible results.                                     *)
CanMerge(c, d) == c[1] \in {"null", "imp"} \/ (c[1] = "var" /\ d[1] = "var" /\ c[2] = d[2])
MergeTwo(c, d) == CASE c[1] = "null" -> d
                    [] c[1] = "imp" -> c
                    [] c[1] = "var" -> IF c[3] \cap d[3] = {} THEN Imp ELSE Var(c[2], c[3] \cap d[3])
RECURSIVE MergeAny(_, _)
MergeAny(new, S) ==
  LET cand == {c \in S : CanMerge(c, new) \/ CanMerge(new, c)} IN
  IF cand = {} THEN {S \cup {new}}
  ELSE UNION {MergeAny(IF CanMerge(c, new) THEN MergeTwo(c, new) ELSE MergeTwo(new, c), S \ {c}) : c \in cand}
\* adding the members of C one after the other, in any order
RECURSIVE BuildAny(_, _)
BuildAny(C, S) == IF C = {} THEN {S}
                  ELSE UNION {UNION {BuildAny(C \ {c}, T) : T \in MergeAny(c, S)} : c \in C}
\* what a merged set says about itself
SelfPossible(S) == \A c \in S : c # Imp /\ (c[1] = "var" => c[3] # {})
SelfComplies(S, s) == \A c \in S : c[1] = "var" => s[c[2]] \in c[3]
=============================================================================
