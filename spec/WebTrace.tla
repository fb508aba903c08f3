------------------------------- MODULE WebTrace -------------------------------
(***************************************************************************)
(* Trace validation of the web server.  A game on the page is a one-game   *)
(* match (module Match) in which either player may be a human at the page. *)
(*   wmatch  a game is started with these settings                         *)
(*   turn    a player was asked for a move: the commands an engine had     *)
(*           received since its previous turn (a human gets none), and     *)
(*           what it answered                                              *)
(*   wend    the game is over: commands left, rows and names of /update,   *)
(*           those in the page, the CSA file, whose turn the server said   *)
(*           it is, pages loaded at turns of a human, and the boards drawn *)
(*   replay  a CSA record was shown                                        *)
(***************************************************************************)
EXTENDS Match, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSess == Len(Trace)
VARIABLES s, l, c, st, rows, err
tvars == <<s, l, c, st, rows, err>>
TraceInit == s \in 1..NSess /\ l = 1 /\ c = <<>> /\ st = Match0 /\ rows = <<>> /\ err = <<>>
Report(e, bad) == PrintT("MISMATCH " \o ToString(<<Trace[s].i, l, e.op, bad>>))
Done(c2, st2, r2, e, bad) ==
  /\ c' = c2
  /\ st' = st2
  /\ rows' = r2
  /\ err' = IF bad = {} THEN <<>> ELSE IF Report(e, bad) THEN <<l, e.op, bad>> ELSE <<>>
Diff(what, got, want) == IF got = want THEN {} ELSE {what \o ": expected " \o ToString(want)}

\* a single game, no pondering, no openings; engine 1 is black
Setting(e) ==
  [ idn |-> e.idn, names |-> e.names, humans |-> e.humans, byo |-> e.byo, tim |-> e.tim, inc |-> e.inc, draw |-> e.draw, csa |-> e.csa, opts |-> e.opts,
    games |-> 1, resign |-> -1, matewin |-> 0, ponder |-> 0, noswap |-> 1, opmoves |-> 0, mode |-> "none", keepprocess |-> 0, summary |-> 0, pgn |-> 0,
    nopgnmoves |-> 1, stop |-> -1, openings |-> <<>> ]

\* --- the list of moves -----------------------------------------------------------
Mark(t) == IF t = 0 THEN "▲" ELSE "△"
RECURSIVE PvKif(_, _, _)
\* the moves of a line, as long as they are legal
PvKif(p, last, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET M == MoveNamed(p, Head(q)) IN
       IF M = {} THEN <<>> ELSE LET m == CHOOSE x \in M : TRUE IN <<Mark(p.t) \o KifMove(m, last)>> \o PvKif(Play(p, m), m, Tail(q))
Row(e, S, m) ==
  LET p == Top(S).p IN
  << Str(Top(S).ply), Mark(p.t) \o KifMove(m, Top(S).mv), Str((e.ms + 999) \div 1000), Str(m),
     IF e.kind = "none" THEN "null" ELSE Str(IF p.t = 0 THEN ScoreOf(e) ELSE 0 - ScoreOf(e)),
     IF e.kind = "none" THEN "" ELSE Spaced(PvKif(p, Top(S).mv, e.pv)) >>
LastRow(n, text) == << Str(n), text, "0", "0", "null", "" >>
Announced(why, t) ==
  CASE why = "declared" -> Mark(t) \o "入玉宣言"
    [] why \in {"limit", "repetition", "illegal", "they checked", "we checked", "time"} -> Verdict(why, t)[2]
    [] OTHER -> Mark(t) \o "投了"

TurnStep(e) ==
  LET st0 == IF st.on THEN st ELSE Begin(c, st, 0)
      who == EngineOf(c, 0, Top(st0.S).p.t)
      want == IF c.humans[who] = 1 THEN <<>> ELSE st0.cmd[who] \o TurnCmds(c, st0, who)
      bad == IF ~st.on /\ st.g > 0 THEN {"a turn after the game was over"}
             ELSE IF e.e # who THEN {"the other player's turn"}
             ELSE IF e.lines # want THEN {"commands: expected " \o ToString(want)}
             ELSE {}
      st1 == Turn(c, st0, e)
      r1 == IF Len(st1.S) > Len(st0.S) THEN Append(rows, Row(e, st0.S, Top(st1.S).mv)) ELSE rows
      r2 == IF st1.on THEN r1 ELSE Append(r1, LastRow(Top(st1.S).ply, Announced(st1.why, Top(st1.S).p.t)))
  IN Done(c, IF bad = {} THEN st1 ELSE st, IF bad = {} THEN r2 ELSE rows, e, bad)

\* --- the board of the page ----------------------------------------------------------
\* x is a drawing of the top of S
DrawnBad(x, S) ==
  LET p == Top(S).p IN
  (IF Len(x.svg) = Cardinality(SvgPieces(p.b)) /\ SetOf(x.svg) = SvgPieces(p.b) THEN {} ELSE {"pieces drawn"})
  \cup Diff("marks drawn", x.marks, SvgMarks(Top(S).mv))
  \cup Diff("hands drawn", x.svgh, << SvgHand(p.h[1], 0), SvgHand(p.h[2], 1) >>)
\* drawings of the start, after each move, and after a reset
SvgsBad(x, S) ==
  IF x = <<>> THEN {}
  ELSE IF Len(x) # Len(S) + 1 THEN {"number of drawings"}
  ELSE UNION { DrawnBad(x[i], SubSeq(S, 1, i)) : i \in 1..Len(S) } \cup DrawnBad(x[Len(x)], SubSeq(S, 1, 1))

\* whose turn it is for the page after k moves: the colour of a human to move
TurnWord(k) == IF c.humans[(k % 2) + 1] = 0 THEN "" ELSE IF k % 2 = 0 THEN "black" ELSE "white"
EndBad(e) ==
  LET rest(k) == IF c.humans[k] = 1 THEN <<>> ELSE SelectSeq(st.cmd[k], LAMBDA x : x # "gameover") IN
  IF e.exc # "" THEN {e.exc}
  ELSE IF st.g = 0 THEN {"the game ended early"}
  ELSE Diff("commands", e.rest, << rest(1), rest(2) >>)
       \cup Diff("moves", e.rows, rows)
       \cup Diff("names", e.names, Players(c, 0))
       \cup Diff("page", e.page, << Players(c, 0), rows, <<"true", "false", "">> >>)
       \cup UNION { LET x == e.pages[i] IN
                    Diff("page at a turn", x[3], << Players(c, 0), SubSeq(rows, 1, x[1]), <<"true", IF x[2] = "" THEN "true" ELSE x[2], TurnWord(x[1])>> >>)
                    : i \in 1..Len(e.pages) }
       \cup Diff("csa", e.csa, IF c.csa = "none" THEN "" ELSE st.csa[1][2])
       \cup UNION { Diff("whose turn the page says it is", e.seen[i][2], TurnWord(e.seen[i][1])) : i \in 1..Len(e.seen) }
       \cup SvgsBad(e.svgs, st.S)

\* --- a CSA record on the page ----------------------------------------------------------
RECURSIVE PvShown(_, _)
\* the moves of a line (CSA, with signs), FALSE at the end if one of them is illegal
PvShown(p, q) ==
  IF q = <<>> THEN << <<>>, TRUE >>
  ELSE LET M == { m \in LegalMoves(p) : CsaMoveText(p.t, m) = Head(q) } IN
       IF M = {} THEN << <<>>, FALSE >>
       ELSE LET m == CHOOSE x \in M : TRUE
                r == PvShown(Play(p, m), Tail(q))
            IN << <<Mark(p.t) \o KifMove(m, 0)>> \o r[1], r[2] >>
ShownPv(p, q) == LET r == PvShown(p, q) IN Spaced(IF r[2] THEN r[1] ELSE q)
RECURSIVE Played(_, _)
Played(S, q) == IF q = <<>> THEN S ELSE Played(PushMove(S, Head(q).m), Tail(q))
RECURSIVE ShownRows(_, _)
ShownRows(S, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET x == Head(q)
           S2 == PushMove(S, x.m)
       IN << << Str(Top(S).ply), Mark(Top(S).p.t) \o KifMove(x.m, Top(S).mv), Str(x.t), Str(x.m), x.ev, ShownPv(Top(S2).p, x.pv) >> >> \o ShownRows(S2, Tail(q))
EndText(x) ==
  CASE x = "%TORYO" -> "投了" [] x = "%CHUDAN" -> "中断" [] x = "%SENNICHITE" -> "千日手" [] x = "%TIME_UP" -> "切れ負け" [] x = "%ILLEGAL_MOVE" -> "反則負け"
    [] x = "%JISHOGI" -> "持将棋" [] x = "%KACHI" -> "入玉宣言" [] x = "%+ILLEGAL_ACTION" -> "先手の反則行為" [] x = "%-ILLEGAL_ACTION" -> "後手の反則行為"
ReplayBad(e) ==
  LET S0 == NewStack(StartPos, 1)
      S == Played(S0, e.q)
      want == Append(ShownRows(S0, e.q), LastRow(Len(e.q) + 1, Mark(Top(S).p.t) \o EndText(e.end)))
  IN IF e.exc # "" THEN {e.exc}
     ELSE Diff("page", e.page, << e.names, want, <<"false", "false", "">> >>) \cup SvgsBad(e.svgs, S)

TraceNext ==
  /\ err = <<>>
  /\ l <= Len(Trace[s].ev)
  /\ l' = l + 1
  /\ s' = s
  /\ LET e == Trace[s].ev[l] IN
     CASE e.op = "wmatch" -> Done(Setting(e), Match0, <<>>, e, {})
       [] e.op = "turn"   -> TurnStep(e)
       [] e.op = "wend"   -> Done(c, st, rows, e, EndBad(e))
       [] e.op = "replay" -> Done(c, st, rows, e, ReplayBad(e))
       [] OTHER           -> Done(c, st, rows, e, {e.op})
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == err = <<>>
View == <<s, l, err>>
===============================================================================
