------------------------------ MODULE MatchModel ------------------------------
(***************************************************************************)
(* A match as a closed system: the runner (module Match) and two engines   *)
(* that answer each turn with anything from a small alphabet of moves,     *)
(* ponder moves, thinking times and evaluations.  TLC visits every match   *)
(* of every setting and checks what must hold of all of them; with Keep    *)
(* each complete match is printed, to be replayed on the real runner.      *)
(***************************************************************************)
EXTENDS Match, IOUtils

CONSTANT Keep
Settings == ndJsonDeserialize(IOEnv.MATCHES)
VARIABLES cf,     \* setting
          mst,    \* state of the match (module Match)
          prot,   \* per engine: where it is in the protocol
          log     \* the answers given, if kept
vars == <<cf, mst, prot, log>>
Setup == Settings[cf]

(* --- the protocol as an engine sees it -------------------------------------- *)
Starts(x, y) == Len(x) >= Len(y) /\ SubSeq(x, 1, Len(y)) = y
\* off - up - ready - game - pos - game .. - over; a search is answered before the next command, pondering is not
After(q, x) ==
  CASE q = "bad" -> "bad"
    [] x = "usi" -> IF q = "off" THEN "up" ELSE "bad"
    [] Starts(x, "setoption ") -> IF q \in {"up", "over"} THEN q ELSE "bad"
    [] x = "isready" -> IF q \in {"up", "over"} THEN "ready" ELSE "bad"
    [] x = "usinewgame" -> IF q = "ready" THEN "game" ELSE "bad"
    [] Starts(x, "position ") -> IF q = "game" THEN "pos" ELSE "bad"
    [] Starts(x, "go ponder") -> IF q = "pos" THEN "ponder" ELSE "bad"
    [] Starts(x, "go") -> IF q = "pos" THEN "game" ELSE "bad"
    [] x \in {"ponderhit", "stop"} -> IF q = "ponder" THEN "game" ELSE "bad"
    [] x = "gameover" -> IF q = "game" THEN "over" ELSE "bad"
    [] x = "quit" -> IF q = "over" THEN "off" ELSE "bad"
    [] OTHER -> "bad"
RECURSIVE AfterAll(_, _)
AfterAll(q, xs) == IF xs = <<>> THEN q ELSE AfterAll(After(q, Head(xs)), Tail(xs))
\* where engine e will be once it has read everything sent so far
Reached(e, x) == AfterAll(prot[e], x.cmd[e])

(* --- engines ------------------------------------------------------------------ *)
Item(q) == { q[i] : i \in 1..Len(q) }
Best(p) == { b \in Item(Setup.bests) : b \in {"resign", "win", "1a1b"} \/ MoveNamed(p, b) # {} }
Pond(p, b) ==
  LET M == IF b \in {"resign", "win"} THEN {} ELSE MoveNamed(p, b) IN
  {"None"} \cup (IF M = {} THEN {} ELSE { x \in Item(Setup.ponds) : MoveNamed(Play(p, CHOOSE m \in M : TRUE), x) # {} })
\* after a ponder hit the engine reports at least one evaluation
Evals(st0, who) == { v \in Item(Setup.evals) : v[1] # "none" \/ TurnCmds(Setup, st0, who) # <<"ponderhit">> }

Init == /\ cf \in 1..Len(Settings)
        /\ mst = SkipEmpty(Setup, Match0)
        /\ prot = <<"off", "off">>
        /\ log = <<>>
Open == IF mst.on THEN {mst} ELSE IF ~More(Setup, mst) THEN {} ELSE { Begin(Setup, mst, o) : o \in OpeningChoices(Setup, mst) }
Next ==
  \E st0 \in Open :
    LET p == Top(st0.S).p
        who == EngineOf(Setup, st0.g, p.t)
    IN \E b \in Best(p) : \E x \in Pond(p, b), t \in Item(Setup.mss), v \in Evals(st0, who) :
         LET e == [e |-> who, best |-> b, pond |-> x, ms |-> t, kind |-> v[1], v |-> v[2], pv |-> <<b>>] IN
         /\ mst' = SkipEmpty(Setup, Turn(Setup, st0, e))
         /\ prot' = [prot EXCEPT ![who] = AfterAll(@, st0.cmd[who] \o TurnCmds(Setup, st0, who))]
         /\ log' = IF Keep THEN Append(log, <<b, x, t, v[1], v[2]>>) ELSE <<>>
         /\ cf' = cf
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- what holds of every match --------------------------------------------------- *)
Over == ~mst.on /\ ~More(Setup, mst)
\* engines are never sent a command out of turn; in particular none is left thinking when a game ends
InvProtocol == \A e \in 1..2 : Reached(e, mst) # "bad"
InvNobodyThinking ==
  /\ ~mst.on => \A e \in 1..2 : mst.pend[e] = "" /\ Reached(e, mst) \in (IF Setup.keepprocess = 1 THEN {"off", "over"} ELSE {"off"})
  /\ mst.on => \A e \in 1..2 : Reached(e, mst) = (IF mst.pend[e] = "" THEN "game" ELSE "ponder")
\* a side without a clock never gets one; no clock runs below zero
InvClocks == mst.on => LET c0 == ByColour(Setup, mst.g, Setup.tim) IN
  \A i \in 1..2 : IF c0[i] = -1 THEN mst.clk[i] = -1 ELSE mst.clk[i] >= 0
\* every game counts once for each engine; what one wins the other loses
InvTally == LET w == mst.won IN
  /\ \A e \in 1..2 : w[e][1] + w[e][2] + w[e][3] + w[e][4] + w[e][5] + w[e][6] = mst.g
  /\ w[1][1] = w[2][4] /\ w[1][2] = w[2][3] /\ w[2][1] = w[1][4] /\ w[2][2] = w[1][3]
  /\ w[1][5] = w[2][6] /\ w[1][6] = w[2][5]
  /\ Setup.noswap = 1 => w[1][2] + w[1][4] + w[1][6] = 0
\* engines take turns as black
InvFair == Setup.noswap = 0 => LET w == mst.won IN (w[1][1] + w[1][3] + w[1][5]) = (mst.g + 1) \div 2
InvGames == mst.g <= Setup.games /\ (mst.stopped => mst.g = Setup.stop)
InvRecorded ==
  /\ Setup.csa = "dir" => Len(mst.csa) = mst.g + (IF mst.on THEN 1 ELSE 0)
  /\ Setup.csa = "multi" => Len(mst.csa) <= 1
  /\ Setup.stop >= 0 => Len(mst.cbs) = mst.g
\* the game on the board is legal, within the limit, and its moves are the ones sent to the engines
InvBoard ==
  /\ \A i \in 2..Len(mst.S) : IsLegal(mst.S[i - 1].p, mst.S[i].mv)
  /\ Len(mst.usi) = Len(mst.S) - 1 /\ \A i \in 1..Len(mst.usi) : mst.usi[i] = Usi(mst.S[i + 1].mv)
  /\ mst.on => Top(mst.S).ply <= Setup.draw /\ ~NoLegalMove(Top(mst.S).p) /\ SeenTimes(mst.S) < 4
\* every match comes to its end
Ends == <>Over

Dump == (Keep /\ Over) => PrintT("BEHAVIOUR " \o ToJson([k |-> cf, log |-> log]))
===============================================================================
