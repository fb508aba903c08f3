--------------------------------- MODULE Match ---------------------------------
(***************************************************************************)
(* A match between two USI engines: who plays which colour, what each      *)
(* engine is told and when, the clocks, how a game ends and for whom, and  *)
(* what is reported and recorded.                                          *)
(*                                                                         *)
(* State st of a match:                                                    *)
(*   g       games finished          stopped  the callback ended the match *)
(*   on      a game is being played  S        its positions                *)
(*   usi     its moves in USI        last     the last move played         *)
(*   clk     remaining time by colour (-1: no clock)                       *)
(*   pend    per engine: the move it is pondering on, "" if none           *)
(*   up      per engine: its process is running                            *)
(*   cmd     per engine: commands sent since its last turn                 *)
(*   won     per engine: wins as black, as white, losses .., draws ..      *)
(*   used    openings taken in the present cycle (shuffled openings)       *)
(*   op      the opening of the present pair of games                      *)
(*   out, csa, pgn, cbs   output lines, CSA texts, PGN text, callback data *)
(*   elo     results for which rating figures were printed                 *)
(*   why     how the last game that was finished ended                     *)
(***************************************************************************)
EXTENDS Records

RECURSIVE Spaced(_)
Spaced(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Spaced(Tail(q))
MoveNamed(p, u) == { m \in LegalMoves(p) : Usi(m) = u }
SeenTimes(S) == Cardinality({ i \in 1..Len(S) : S[i].p = Top(S).p })

Match0 == [ g |-> 0, stopped |-> FALSE, on |-> FALSE, S |-> NewStack(StartPos, 1), usi |-> <<>>, last |-> "", clk |-> <<-1, -1>>, pend |-> <<"", "">>,
            up |-> <<FALSE, FALSE>>, cmd |-> << <<>>, <<>> >>, won |-> << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>> >>, used |-> {}, op |-> 0,
            out |-> <<>>, csa |-> <<>>, pgn |-> "", cbs |-> <<>>, elo |-> <<>>, why |-> "" ]

\* --- who plays what ------------------------------------------------------------
BlackEngine(c, g) == IF c.noswap = 1 \/ g % 2 = 0 THEN 1 ELSE 2
EngineOf(c, g, col) == IF col = 0 THEN BlackEngine(c, g) ELSE 3 - BlackEngine(c, g)
NameOf(c, e) == IF c.names[e] # "" THEN c.names[e] ELSE c.idn[e]
Players(c, g) == << NameOf(c, EngineOf(c, g, 0)), NameOf(c, EngineOf(c, g, 1)) >>
ByColour(c, g, v) == << v[EngineOf(c, g, 0)], v[EngineOf(c, g, 1)] >>

\* --- commands --------------------------------------------------------------------
PositionCmd(q) == IF q = <<>> THEN "position startpos" ELSE "position startpos moves " \o Spaced(q)
Given(k, v) == IF v >= 0 THEN " " \o k \o " " \o Str(v) ELSE ""
\* byoyomi excludes increments
GoCmd(c, g, clk, e, pon) ==
  LET inc == ByColour(c, g, c.inc) IN
  "go" \o (IF pon THEN " ponder" ELSE "") \o Given("btime", clk[1]) \o Given("wtime", clk[2])
  \o (IF c.byo[e] >= 0 THEN Given("byoyomi", c.byo[e]) ELSE Given("binc", inc[1]) \o Given("winc", inc[2]))
Options(c, e) == (IF c.ponder = 1 THEN <<"setoption name USI_Ponder value true">> ELSE <<>>)
                 \o Map(LAMBDA o : "setoption name " \o o[1] \o " value " \o o[2], c.opts[e])
SetUp(c, st, e) == (IF st.up[e] THEN <<>> ELSE <<"usi">>) \o Options(c, e) \o <<"isready", "usinewgame">>

\* --- openings ----------------------------------------------------------------------
\* which openings game g may start from
OpeningChoices(c, st) ==
  CASE c.mode = "none" -> {0}
    [] c.mode = "index" -> {c.index}
    [] OTHER -> IF st.g % 2 = 1 THEN {st.op}
                ELSE LET left == (1..Len(c.openings)) \ st.used IN
                     IF left # {} THEN left
                     ELSE 1..Len(c.openings)
OpeningMoves(c, o) == IF o = 0 THEN <<>> ELSE LET q == c.openings[o] IN SubSeq(q, 1, MinInt(Len(q), c.opmoves))
RECURSIVE PlayUsi(_, _)
PlayUsi(S, q) == IF q = <<>> THEN S ELSE PlayUsi(PushMove(S, CHOOSE m \in MoveNamed(Top(S).p, Head(q)) : TRUE), Tail(q))

CsaStart(c, g, append) == CsaInfo([append |-> append, ver |-> "V2", names |-> Players(c, g), cmt |-> "", vars |-> <<>>, init |-> "none"], StartPos)
RECURSIVE CsaPlain(_, _)
CsaPlain(S, i) == IF i > Len(S) THEN "" ELSE CsaMoveText(S[i - 1].p.t, S[i].mv) \o "\n" \o CsaPlain(S, i + 1)
AddCsa(c, st, x) == IF c.csa = "none" THEN st.csa ELSE [st.csa EXCEPT ![Len(st.csa)][2] = @ \o x]

\* the board as it is printed
Shows(c) == "display" \in DOMAIN c /\ c.display = 1
Printed(c, head, S) == IF Shows(c) THEN << head, "'  9  8  7  6  5  4  3  2  1\n" \o CsaPos(Top(S).p) >> ELSE <<>>

Begin(c, st, o) ==
  LET g == st.g
      q == OpeningMoves(c, o)
      S == PlayUsi(NewStack(StartPos, 1), q)
      head == CsaStart(c, g, IF c.csa = "multi" /\ g > 0 THEN 1 ELSE 0)
      text == head \o CsaPlain(S, 2)
      pl == Players(c, g)
  IN [st EXCEPT !.on = TRUE, !.S = S, !.usi = q, !.last = "", !.clk = ByColour(c, g, c.tim), !.pend = <<"", "">>, !.up = <<TRUE, TRUE>>,
      !.cmd = << @[1] \o SetUp(c, st, 1), @[2] \o SetUp(c, st, 2) >>,
      !.op = o, !.used = IF g % 2 = 1 THEN @ ELSE IF @ = 1..Len(c.openings) THEN {o} ELSE @ \cup {o},
      !.out = Append(@, pl[1] \o " vs " \o pl[2] \o " start.") \o Printed(c, "開始局面", S),
      !.csa = CASE c.csa = "none" -> @
                [] c.csa = "multi" /\ g > 0 -> [@ EXCEPT ![1][2] = @ \o text]
                [] c.csa = "multi" -> << <<"", text>> >>
                [] OTHER -> Append(@, << pl[1] \o "+" \o pl[2] \o "+#.csa", text >>)]

\* --- the end of a game ------------------------------------------------------------------
Colour(c) == IF c = 0 THEN "先手" ELSE "後手"
\* <<winner (2: drawn), text after the move count, CSA ending>>; why: how play stopped, t: the side to move then
Verdict(why, t) ==
  CASE why = "limit" -> <<2, "持将棋", "%JISHOGI">>
    [] why = "repetition" -> <<2, "千日手", "%SENNICHITE">>
    [] why = "declared" -> <<t, "入玉宣言", "%KACHI">>
    [] why = "illegal" -> <<Opp(t), Colour(t) \o "の反則負け", "%ILLEGAL_MOVE">>
    [] why = "they checked" -> <<t, Colour(t) \o "の反則勝ち", IF t = 1 THEN "%+ILLEGAL_ACTION" ELSE "%-ILLEGAL_ACTION">>
    [] why = "we checked" -> <<Opp(t), Colour(t) \o "の反則負け", "%ILLEGAL_MOVE">>
    [] why = "time" -> <<Opp(t), Colour(t) \o "の切れ負け", "%TIME_UP">>
    [] OTHER -> <<Opp(t), Colour(Opp(t)) \o "の勝ち", "%TORYO">>

\* one decimal, as a percentage of games scored (a draw is half a game)
Percent(w, d, n) == IF n = 0 THEN "0.0" ELSE LET t == (2 * 1000 * (2 * w + d) + 2 * n) \div (4 * n) IN Str(t \div 10) \o "." \o Str(t % 10)
Score3(w, x, d) == Str(w) \o "-" \o Str(x) \o "-" \o Str(d) \o " (" \o Percent(w, d, w + x + d) \o "%)"
Sums(won) == [ e1 |-> won[1][1] + won[1][2], e2 |-> won[2][1] + won[2][2], b |-> won[1][1] + won[2][1], w |-> won[1][2] + won[2][2],
               d |-> won[1][5] + won[1][6] ]
Summary(c, g, won) ==
  LET z == Sums(won)
      a == NameOf(c, 1)
      b == NameOf(c, 2)
  IN << Str(g) \o " of " \o Str(c.games) \o " games finished.",
        a \o " vs " \o b \o ": " \o Score3(z.e1, z.e2, z.d),
        "Black vs White: " \o Score3(z.b, z.w, z.d),
        a \o " playing Black: " \o Score3(won[1][1], won[1][3], won[1][5]),
        a \o " playing White: " \o Score3(won[1][2], won[1][4], won[1][6]),
        b \o " playing Black: " \o Score3(won[2][1], won[2][3], won[2][5]),
        b \o " playing White: " \o Score3(won[2][2], won[2][4], won[2][6]) >>
     \o (IF z.e1 > 0 /\ z.e2 > 0 THEN <<"Elo">> ELSE <<>>)
Stats(c, won) == LET z == Sums(won) IN
  << NameOf(c, 1), NameOf(c, 2), Str(z.e1), Str(z.e2), Str(z.b), Str(z.w), Str(z.d), Str(z.e1 + z.e2 + z.d) >>

\* which column of won: 1 black, 2 white for a win; +2 for a loss; +4 for a draw
Tally(c, g, won, winner) ==
  LET col(e) == IF e = EngineOf(c, g, 0) THEN 0 ELSE 1
      slot(e) == col(e) + 1 + (IF winner = 2 THEN 4 ELSE IF winner = col(e) THEN 0 ELSE 2)
  IN << [won[1] EXCEPT ![slot(1)] = @ + 1], [won[2] EXCEPT ![slot(2)] = @ + 1] >>
Closing(c, st, e) == (IF st.pend[e] # "" THEN <<"stop">> ELSE <<>>) \o <<"gameover">> \o (IF c.keepprocess = 1 THEN <<>> ELSE <<"quit">>)
Finish(c, st, why0) ==
  LET top == Top(st.S)
      why == IF top.ply > c.draw /\ ~NoLegalMove(top.p) THEN "limit" ELSE why0
      v == Verdict(why, top.p.t)
      won == Tally(c, st.g, st.won, v[1])
      n == st.g + 1
      res == IF v[1] = 0 THEN "BLACK" ELSE IF v[1] = 1 THEN "WHITE" ELSE "DRAW"
  IN [st EXCEPT !.on = FALSE, !.why = why, !.g = n, !.won = won, !.up = <<c.keepprocess = 1, c.keepprocess = 1>>,
      !.cmd = << @[1] \o Closing(c, st, 1), @[2] \o Closing(c, st, 2) >>, !.pend = <<"", "">>,
      !.out = Append(@, "まで" \o Str(top.ply - 1) \o "手で" \o v[2]) \o (IF c.summary = 1 THEN Summary(c, n, won) ELSE <<>>),
      !.elo = LET z == Sums(won) IN IF c.summary = 1 /\ z.e1 > 0 /\ z.e2 > 0 THEN Append(@, <<z.e1, z.e2, z.d>>) ELSE @,
      !.csa = AddCsa(c, st, v[3] \o "\n"),
      !.pgn = IF c.pgn = 0 THEN @ ELSE @ \o PgnTags([event |-> "?", site |-> "?", date |-> "D", round |-> n, names |-> Players(c, st.g), res |-> res])
                                        \o (IF c.nopgnmoves = 1 THEN "" ELSE PgnMoves(History(st.S), res)),
      !.cbs = IF c.stop < 0 THEN @ ELSE Append(@, Stats(c, won)),
      !.stopped = (c.stop = n)]

\* --- a turn ---------------------------------------------------------------------------------
ScoreOf(e) == IF e.kind = "cp" THEN e.v ELSE 100000 * e.v
RECURSIVE PvCsa(_, _)
PvCsa(p, q) == IF q = <<>> THEN <<>>
               ELSE LET M == MoveNamed(p, Head(q)) IN
                    IF M = {} THEN <<>> ELSE LET m == CHOOSE x \in M : TRUE IN <<CsaMoveText(p.t, m)>> \o PvCsa(Play(p, m), Tail(q))
CommentOf(e, p) ==
  IF e.kind = "none" THEN ""
  ELSE LET q == PvCsa(p, e.pv) IN "** " \o Str(IF p.t = 0 THEN ScoreOf(e) ELSE 0 - ScoreOf(e)) \o (IF Len(q) > 1 THEN " " \o Spaced(Tail(q)) ELSE "")
\* the mover's clock after its move: <<time left, it lost on time>>; the overrun of the last second is forgiven
Charged(c, g, clk, e, t) ==
  IF clk[t + 1] < 0 THEN <<-1, FALSE>>
  ELSE LET i == c.inc[e.e]
           left == clk[t + 1] + (IF i > 0 THEN i ELSE 0) - e.ms
           byo == IF c.byo[e.e] > 0 THEN c.byo[e.e] ELSE 0
       IN IF left >= 0 THEN <<left, FALSE>> ELSE <<0, left <= 0 - 1000 - byo>>
\* what the mover is sent for its turn
TurnCmds(c, st, e) ==
  IF st.pend[e] = "" THEN << PositionCmd(st.usi), GoCmd(c, st.g, st.clk, e, FALSE) >>
  ELSE IF st.last = st.pend[e] THEN <<"ponderhit">>
  ELSE << "stop", PositionCmd(st.usi), GoCmd(c, st.g, st.clk, e, FALSE) >>
\* st when engine e.e has answered
Turn(c, st0, e) ==
  LET p == Top(st0.S).p
      t == p.t
      ch == Charged(c, st0.g, st0.clk, e, t)
      st == [st0 EXCEPT !.clk[t + 1] = ch[1], !.cmd[e.e] = <<>>, !.pend[e.e] = "", !.last = e.best]
      M == IF e.best \in {"resign", "win"} THEN {} ELSE MoveNamed(p, e.best)
  IN IF ch[2] THEN Finish(c, st, "time")
     ELSE IF c.resign >= 0 /\ e.kind # "none" /\ ScoreOf(e) <= 0 - c.resign THEN Finish(c, st, "resigned")
     ELSE IF e.best = "resign" THEN Finish(c, st, "resigned")
     ELSE IF e.best = "win" THEN Finish(c, st, "declared")
     ELSE IF M = {} THEN Finish(c, st, "illegal")
     ELSE LET m == CHOOSE x \in M : TRUE
              S == PushMove(st.S, m)
              q == Append(st.usi, e.best)
              st1 == [st EXCEPT !.S = S, !.usi = q,
                      !.csa = AddCsa(c, st, CsaWMove([m |-> m, time |-> e.ms \div 1000, cmt |-> CommentOf(e, p), sep |-> "\n"], t))]
          IN IF c.matewin = 1 /\ e.kind # "none" /\ ScoreOf(e) = 100000 THEN Finish(c, st1, "mate")
             ELSE IF SeenTimes(S) = 4
             THEN LET r == Repetition(S, 0) IN Finish(c, st1, IF r = "WIN" THEN "they checked" ELSE IF r = "LOSE" THEN "we checked" ELSE "repetition")
             ELSE LET st3 == [st1 EXCEPT !.out = @ \o Printed(c, Str(Len(q)) \o "手目", S)] IN
                  IF NoLegalMove(Top(S).p) THEN Finish(c, st3, "mate")
             ELSE LET st2 == IF c.ponder = 0 \/ e.pond = "None" THEN st3
                             ELSE [st3 EXCEPT !.pend[e.e] = e.pond,
                                   !.cmd[e.e] = << PositionCmd(Append(q, e.pond)), GoCmd(c, st1.g, st1.clk, e.e, TRUE) >>]
                  IN IF Top(S).ply > c.draw THEN Finish(c, st2, "limit") ELSE st2

More(c, st) == ~st.stopped /\ st.g < c.games
\* games that are over before anybody moves (the opening reaches the move limit)
RECURSIVE SkipEmpty(_, _)
SkipEmpty(c, st) ==
  IF st.on \/ ~More(c, st) \/ c.mode = "shuffle" THEN st
  ELSE LET o == CHOOSE x \in OpeningChoices(c, st) : TRUE IN
       IF Len(OpeningMoves(c, o)) + 1 > c.draw THEN SkipEmpty(c, Finish(c, Begin(c, st, o), "limit")) ELSE st
===============================================================================
