---------------------------------- MODULE Env ----------------------------------
(***************************************************************************)
(* The reinforcement-learning environments: one environment is a game in   *)
(* progress (the stack of positions since the last reset); a vector of     *)
(* environments steps them together and restarts the finished ones.        *)
(* Reward is for the side that moved (or resigned, by move 0).             *)
(***************************************************************************)
EXTENDS Records

Fresh == NewStack(StartPos, 1)
\* how often the position on top has occurred in this game
Seen(S) == Cardinality({ i \in 1..Len(S) : S[i].p = Top(S).p })
\* <<reward, done, draw>> of a move that led to stack S
Outcome(S) ==
  IF Seen(S) = 4
  THEN LET r == Repetition(S, 0) IN << IF r = "WIN" THEN "-1.0" ELSE IF r = "LOSE" THEN "1.0" ELSE "0.0", 1, r >>
  ELSE IF NoLegalMove(Top(S).p) THEN <<"1.0", 1, "None">> ELSE <<"0.0", 0, "None">>
Resigned == <<"-1.0", 1, "None">>

Step(S, m) == IF m = 0 THEN S ELSE PushMove(S, m)
StepOut(S, m) == IF m = 0 THEN Resigned ELSE Outcome(PushMove(S, m))
\* a vector step plays move q[i] in environment i and restarts it if that ended the game
VOut(envs, q) == Tab(LAMBDA i : StepOut(envs[i], q[i]), Len(q))
VNext(envs, q) == Tab(LAMBDA i : IF i <= Len(q) THEN (IF StepOut(envs[i], q[i])[2] = 1 THEN Fresh ELSE Step(envs[i], q[i])) ELSE envs[i], Len(envs))
Legal(S, m) == m = 0 \/ IsLegal(Top(S).p, m)
===============================================================================
