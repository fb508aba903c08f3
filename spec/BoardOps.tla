------------------------------- MODULE BoardOps -------------------------------
(***************************************************************************)
(* The Board object as a stack of frames, one frame per move or pass       *)
(* played since the position was set up.                                   *)
(*   p     - the position                                                  *)
(*   ply   - move number                                                   *)
(*   chk   - the side to move is in check                                  *)
(*   since - moves played since set-up or since the last pass              *)
(*   mv    - the move that led here (0: set-up, 129: pass)                 *)
(***************************************************************************)
EXTENDS ShogiRules

PASSMOVE == 129
Frame(p, ply, since, mv) ==
  [p |-> p, ply |-> ply, chk |-> InCheck(p), since |-> since, mv |-> mv]
Top(S) == S[Len(S)]
NewStack(p, ply) == << Frame(p, ply, 0, 0) >>

PushMove(S, m) == LET f == Top(S) IN
  Append(S, Frame(Play(f.p, m), f.ply + 1, f.since + 1, m))
CanPop(S) == Len(S) > 1 /\ Top(S).mv # PASSMOVE
PopMove(S) == SubSeq(S, 1, Len(S) - 1)
PushPass(S) == LET f == Top(S) IN Append(S, Frame(Pass(f.p), f.ply, 0, PASSMOVE))
PopPass(S) == SubSeq(S, 1, Len(S) - 1)
SetTurn(S, c) == << Frame([Top(S).p EXCEPT !.t = c], Top(S).ply, 0, 0) >>
\* renumbers the whole game: undoing a move later goes to the number before n
SetPly(S, n) == LET d == n - Top(S).ply IN [i \in 1..Len(S) |-> [S[i] EXCEPT !.ply = @ + d]]
History(S) == [i \in 1..(Len(S) - 1) |-> S[i + 1].mv]

(***************************************************************************)
(* Repetition.  The position is compared with the earlier ones with the    *)
(* same side to move, nearest first, at least 4 moves back, not further    *)
(* than maxPly moves nor beyond a pass.                                    *)
(***************************************************************************)
HandGE(x, y) == \A i \in 1..7 : x[i] >= y[i]
\* every move of the side that moved just before frame n, back to frame n-i, gave check
RECURSIVE AllChecks(_, _, _)
AllChecks(S, n, k) == IF n <= k THEN TRUE ELSE S[n].chk /\ AllChecks(S, n - 2, k)

RepClass(S, i) ==
  LET n == Len(S) IN
  IF AllChecks(S, n - 1, n - i) THEN "LOSE"       \* the side to move kept checking
  ELSE IF AllChecks(S, n, n - i) THEN "WIN"       \* its opponent kept checking
  ELSE "DRAW"

RECURSIVE RepFrom(_, _, _, _)
RepFrom(S, i, e, hands) ==
  IF i > e THEN "NONE"
  ELSE LET n == Len(S)
           p == S[n].p
           q == S[n - i].p
           same == p.b = q.b
       IN IF same /\ p.h = q.h THEN RepClass(S, i)
          ELSE IF same /\ hands /\ HandGE(p.h[p.t + 1], q.h[p.t + 1]) THEN "SUPERIOR"
          ELSE IF same /\ hands /\ HandGE(q.h[p.t + 1], p.h[p.t + 1]) THEN "INFERIOR"
          ELSE RepFrom(S, i + 2, e, hands)

MinInt(a, b) == IF a < b THEN a ELSE b
\* maxPly = 0 means no limit
Repetition(S, maxPly) ==
  RepFrom(S, 4, IF maxPly = 0 THEN Top(S).since ELSE MinInt(Top(S).since, maxPly), TRUE)
\* the answer for a move that has not been played yet is the one after playing it
MoveRepetition(S, m, maxPly) ==
  LET S2 == PushMove(S, m) IN
  RepFrom(S2, 4, IF maxPly = 0 THEN Top(S2).since ELSE MinInt(Top(S2).since, maxPly), TRUE)

(***************************************************************************)
(* Declaration win (27-point rule)                                         *)
(***************************************************************************)
SumHand(w, h) == w[1]*h[1] + w[2]*h[2] + w[3]*h[3] + w[4]*h[4] + w[5]*h[5] + w[6]*h[6] + w[7]*h[7]
PointsOf(pt) == IF pt \in {BISHOP, ROOK, HORSE, DRAGON} THEN 5 ELSE 1
ZonePieces(p, c) == { s \in Zone[c + 1] : p.b[s] # 0 /\ Col(p.b[s]) = c /\ Typ(p.b[s]) # KING }
BigIn(p, Z) == Cardinality({ s \in Z : PointsOf(Typ(p.b[s])) = 5 })
DeclPoints(p, c) ==
  LET Z == ZonePieces(p, c) IN
  Cardinality(Z) + 4 * BigIn(p, Z) + SumHand(<<1, 1, 1, 1, 1, 5, 5>>, p.h[c + 1])
CanDeclare(p) ==
  LET c == p.t IN
  /\ ~InCheck(p)
  /\ KingSq(p.b, c) \in Zone[c + 1]
  /\ Cardinality(ZonePieces(p, c)) >= 10
  /\ DeclPoints(p, c) >= (IF c = 0 THEN 28 ELSE 27)
===============================================================================
