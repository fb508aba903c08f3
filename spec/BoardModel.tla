------------------------------ MODULE BoardModel ------------------------------
(***************************************************************************)
(* The board object as a closed state machine: two boards, played on by    *)
(* any interleaving of moves, passes, undos and copies.  A scene fixes the *)
(* set-up position, the moves that may be played (none listed: every legal *)
(* move), the operations and the number of steps.  TLC visits every        *)
(* behaviour of every scene, checks the invariants below, and, when Keep   *)
(* is set, prints each complete behaviour for replay on the real board.    *)
(***************************************************************************)
EXTENDS Parse, IOUtils

CONSTANT Keep
Scenes == ndJsonDeserialize(IOEnv.SCENES)
VARIABLES sc,    \* scene
          st,    \* board -> stack of frames
          stp,   \* steps taken
          log    \* the steps, if they are kept
vars == <<sc, st, stp, log>>

Boards == {1, 2}
Has(op) == \E i \in 1..Len(Scenes[sc].ops) : Scenes[sc].ops[i] = op
Playable(p) ==
  LET q == Scenes[sc].moves IN
  IF q = <<>> THEN LegalMoves(p) ELSE { m \in LegalMoves(p) : \E i \in 1..Len(q) : q[i] = Usi(m) }
Step(o, S, e) ==
  /\ stp < Scenes[sc].depth
  /\ stp' = stp + 1
  /\ sc' = sc
  /\ st' = (o :> S) @@ st
  /\ log' = IF Keep THEN Append(log, e) ELSE <<>>

Init == /\ sc \in 1..Len(Scenes)
        /\ st = (1 :> NewStack([b |-> Scenes[sc].b, h |-> Scenes[sc].h, t |-> Scenes[sc].t], Scenes[sc].ply))
        /\ stp = 0
        /\ log = <<>>
Push(o) == \E m \in Playable(Top(st[o]).p) : Step(o, PushMove(st[o], m), <<"push", o, m>>)
Pop(o) == Has("pop") /\ CanPop(st[o]) /\ Step(o, PopMove(st[o]), <<"pop", o, 0>>)
DoPass(o) == Has("pass") /\ ~Top(st[o]).chk /\ Step(o, PushPass(st[o]), <<"pass", o, 0>>)
Unpass(o) == Has("pass") /\ Len(st[o]) > 1 /\ Top(st[o]).mv = PASSMOVE /\ Step(o, PopPass(st[o]), <<"unpass", o, 0>>)
Copy == Has("copy") /\ \E o \in DOMAIN st, z \in Boards : o # z /\ Step(z, st[o], <<"copy", z, o>>)
Next == Copy \/ \E o \in DOMAIN st : Push(o) \/ Pop(o) \/ DoPass(o) \/ Unpass(o)
Spec == Init /\ [][Next]_vars

(* --- what holds of every board in every reachable state ------------------ *)
RECURSIVE Fold(_, _, _)
Fold(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + Fold(F, a + 1, b)
Total(p, i) == OnBoardOf(p.b, i) + p.h[1][i] + p.h[2][i]
Conserved(S) == \A i \in 1..7 : Total(Top(S).p, i) = Total(S[1].p, i)
\* kings are never taken, and the side that moved is never left in check
KingsSafe(S) == LET p == Top(S).p IN
  /\ \A c \in 0..1 : (KingSq(p.b, c) = 0) = (KingSq(S[1].p.b, c) = 0)
  /\ ~InCheckB(p.b, Opp(p.t))
\* two unpromoted pawns of a side never share a file; no piece is stuck for ever
WellPlaced(S) == LET b == Top(S).p.b IN
  /\ \A c \in 0..1, f \in 0..8 : Cardinality({ r \in 0..8 : b[Ix(f, r)] = Mk(c, PAWN) }) <= 1
  /\ \A s \in Sq : b[s] # 0 => s \notin DeadEnd[b[s]]
\* the stack is a game: every frame follows from the one below it
IsGame(S) == \A i \in 2..Len(S) :
  LET f == S[i - 1]  g == S[i] IN
  IF g.mv = PASSMOVE THEN g = Frame(Pass(f.p), f.ply, 0, PASSMOVE)
  ELSE IsLegal(f.p, g.mv) /\ g = Frame(Play(f.p, g.mv), f.ply + 1, f.since + 1, g.mv)
\* the two ways legality is defined agree; so do the tests for having no move
SameLegality(S) == LET p == Top(S).p  L == LegalMoves(p) IN
  /\ \A m \in L : IsLegal(p, m)
  /\ \A m \in BoardMoves(p.b, p.t) \ L : ~IsLegal(p, m)
  /\ NoLegalMove(p) = (L = {})
\* turning the board around turns the legal moves around
Symmetric(S) == LET p == Top(S).p IN
  LegalMoves(RotPos(p)) = { RotMove(m) : m \in LegalMoves(p) } /\ RotPos(RotPos(p)) = p
\* no two legal moves share a text, a 16-bit code, or a label
Distinct(F(_), L) == Cardinality({ F(m) : m \in L }) = Cardinality(L)
Unambiguous(S) == LET p == Top(S).p  L == LegalMoves(p) IN
  Distinct(Usi, L) /\ Distinct(Csa, L) /\ Distinct(Mv16, L) /\ Distinct(Psv, L) /\ Distinct(LAMBDA m : Label(m, p.t), L)
PackedSize(S) == LET p == Top(S).p IN
  (Packable(p) /\ \A i \in 1..7 : Total(p, i) <= FullSet[i]) => PackedLen(p) = 256
\* the text of a position denotes that position
Chars(x) == LET F(i) == SubSeq(x, i, i) IN Tab(F, Len(x))
ReadsBack(S) == LET f == Top(S)  v == SfenVerdict(Chars(Sfen(f.p, f.ply))) IN v.v = "ok" /\ v.p = f.p /\ v.ply = f.ply
\* repetition, said once more: the nearest earlier frame with the same board and comparable hands, an even number (at
\* least 4) of plies back, decides
Comparable(p, q) == p.b = q.b /\ (HandGE(p.h[p.t + 1], q.h[p.t + 1]) \/ HandGE(q.h[p.t + 1], p.h[p.t + 1]))
SaidAgain(S, maxPly) ==
  LET f == Top(S)  z == Len(S)
      I == { i \in 4..f.since : i % 2 = 0 /\ (maxPly = 0 \/ i <= maxPly) /\ Comparable(f.p, S[z - i].p) }
  IN IF I = {} THEN "NONE"
     ELSE LET i == CHOOSE x \in I : \A y \in I : x <= y
              q == S[z - i].p
              them == { j \in 0..(i - 1) : j % 2 = 0 /\ ~S[z - j].chk }    \* positions of the side to move not in check
              us == { j \in 0..(i - 1) : j % 2 = 1 /\ ~S[z - j].chk }
          IN IF f.p.h = q.h THEN (IF us = {} THEN "LOSE" ELSE IF them = {} THEN "WIN" ELSE "DRAW")
             ELSE IF HandGE(f.p.h[f.p.t + 1], q.h[f.p.t + 1]) THEN "SUPERIOR" ELSE "INFERIOR"
RepetitionAgrees(S) == \A x \in {0, 3, 4, 5, 6, 8} : Repetition(S, x) = SaidAgain(S, x)
All(P(_)) == \A o \in DOMAIN st : P(st[o])
InvConserved == All(Conserved)
InvKings == All(KingsSafe)
InvPlaced == All(WellPlaced)
InvGame == All(IsGame)
InvLegality == All(SameLegality)
InvSymmetric == All(Symmetric)
InvUnambiguous == All(Unambiguous)
InvPacked == All(PackedSize)
InvReadsBack == All(ReadsBack)
InvRepetition == All(RepetitionAgrees)

\* a behaviour that cannot be continued, for replay
Complete == stp = Scenes[sc].depth \/ \A o \in DOMAIN st : Playable(Top(st[o]).p) = {} /\ ~Has("pop") /\ ~Has("pass") /\ ~Has("copy")
Dump == (Keep /\ Complete) => PrintT("BEHAVIOUR " \o ToJson([k |-> sc, log |-> log]))
===============================================================================
