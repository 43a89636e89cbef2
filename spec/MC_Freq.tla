------------------------------ MODULE MC_Freq ------------------------------
(* The sampling test: with n rolls, a cell of probability p/g is accepted at *)
(* the expected count and within three standard deviations of it, and a code *)
(* whose true probability is q/g is rejected at its own expected count when  *)
(* q differs from p by the stated margin.  This fixes how small a bias of    *)
(* the dice the check of C07 is bound to see.                                *)
EXTENDS Figures, IOUtils, TLC
G == 60                       \* probabilities are multiples of 1/60
N == IF IOEnv.TIER = "quick" THEN 12000 ELSE 60000
Margin == IF IOEnv.TIER = "quick" THEN 3 ELSE 2    \* in units of 1/60
VARIABLES p, q
Init == p \in 0 .. G /\ q \in 0 .. G
Next == UNCHANGED <<p, q>>
Mean(x) == (N * x) \div G
\* three standard deviations: t^2 <= 9 n p (1 - p)
RECURSIVE Root(_, _)
Root(x, r) == IF (r + 1) * (r + 1) > x THEN r ELSE Root(x, r + 1)
Dev(x) == Root((9 * (N \div G) * x * (G - x)) \div G, 0)
Ok(k, x) == Plausible(k, N, BFrom(x), BFrom(G))
Clamp(k) == IF k < 0 THEN 0 ELSE IF k > N THEN N ELSE k
AcceptsOwn == Ok(Mean(p), p) /\ Ok(Clamp(Mean(p) + Dev(p)), p) /\ Ok(Clamp(Mean(p) - Dev(p)), p)
RejectsOther == (p - q >= Margin \/ q - p >= Margin) => ~Ok(Mean(q), p)
\* what is impossible may never be seen more than a few times; what is possible with 1/60 or more must be seen
Unseen == /\ p > 0 => ~Ok(0, p)
          /\ Mean(q) > 20 => ~Ok(Mean(q), 0)
=============================================================================
