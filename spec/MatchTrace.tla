------------------------------ MODULE MatchTrace ------------------------------
(***************************************************************************)
(* Trace validation of matches.                                            *)
(*   match   a match is started with these settings                        *)
(*   turn    an engine was asked for a move: the commands it had received  *)
(*           since its previous turn, what it answered, how long it took   *)
(*   league, table, over   three engines play each other, see League       *)
(*   end     the match is over: what was left unread by the engines, what  *)
(*           was printed, recorded, told to the callback, and returned     *)
(***************************************************************************)
EXTENDS League, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSess == Len(Trace)
E == INSTANCE Elo
VARIABLES s, l, c, st, lg, err
tvars == <<s, l, c, st, lg, err>>
TraceInit == s \in 1..NSess /\ l = 1 /\ c = <<>> /\ st = Match0 /\ lg = NoLeague /\ err = <<>>
Report(e, bad) == PrintT("MISMATCH " \o ToString(<<Trace[s].i, l, e.op, bad>>))
Next4(c2, st2, lg2, e, bad) ==
  /\ lg' = lg2
  /\ c' = c2
  /\ st' = st2
  /\ err' = IF bad = {} THEN <<>> ELSE IF Report(e, bad) THEN <<l, e.op, bad>> ELSE <<>>

Done(c2, st2, e, bad) == Next4(c2, st2, lg, e, bad)

TurnStep(e) ==
  LET fresh == ~st.on
      okay == fresh => More(c, st)
      O == IF fresh /\ okay THEN OpeningChoices(c, st) ELSE {0}
      o == IF c.mode = "shuffle" THEN e.opening ELSE CHOOSE x \in O : TRUE
      st0 == IF fresh /\ okay /\ o \in O THEN Begin(c, st, o) ELSE st
      who == EngineOf(c, st0.g, Top(st0.S).p.t)
      want == st0.cmd[who] \o TurnCmds(c, st0, who)
      bad == IF ~okay THEN {"a turn after the match was over"}
             ELSE IF fresh /\ o \notin O THEN {"opening"}
             ELSE IF e.e # who THEN {"the other engine's turn"}
             ELSE IF e.lines # want THEN {"commands: expected " \o ToString(want)}
             ELSE {}
  IN Done(c, IF bad = {} THEN SkipEmpty(c, Turn(c, st0, e)) ELSE st, e, bad)

Diff(what, got, want) == IF got = want THEN {} ELSE {what \o ": expected " \o ToString(want)}
EndBad(e) ==
  LET ce(x) == IF c.keepprocess = 1 THEN Append(st.cmd[x], "quit") ELSE st.cmd[x] IN
  IF e.exc # "" THEN {e.exc}
  ELSE IF st.on \/ More(c, st) THEN {"the match ended early"}
  ELSE Diff("commands", e.rest, << ce(1), ce(2) >>)
       \cup Diff("output", e.out, st.out)
       \cup Diff("csa", e.csa, st.csa)
       \cup Diff("pgn", e.pgn, st.pgn)
       \cup (IF Len(e.elos) = Len(st.elo) /\ \A i \in 1..Len(st.elo) : E!PrintedOk(st.elo[i][1], st.elo[i][2], st.elo[i][3], e.elos[i]) THEN {}
             ELSE {"rating figures"})
       \cup Diff("callback", e.cbs, st.cbs)
       \cup (IF "via" \in DOMAIN c /\ c.via = "args" THEN {} ELSE Diff("result", e.ret, Stats(c, st.won)))

TraceNext ==
  /\ err = <<>>
  /\ l <= Len(Trace[s].ev)
  /\ l' = l + 1
  /\ s' = s
  /\ LET e == Trace[s].ev[l] IN
     CASE e.op = "match" -> Next4(e, SkipEmpty(e, Match0), Started(lg, e.index), e, StartBad(lg, e))
       [] e.op = "turn"  -> TurnStep(e)
       [] e.op = "end"   -> Next4(c, st, Ended(lg, Sums(st.won)), e, EndBad(e))
       [] e.op = "league" -> Next4(c, st, LeagueOf(e), e, {})
       [] e.op = "orders" -> Done(c, st, e, OrdersBad(e))
       [] e.op = "table" -> Done(c, st, e, Diff("table", e.out, Table(lg)))
       [] e.op = "over"  -> Done(c, st, e, IF e.out # <<>> \/ e.files # 0 \/ e.games # 0 THEN {"more than was played"}
                                           ELSE IF lg.n # 3 * (lg.games \div 2) THEN {"matches"} ELSE {})
       [] OTHER          -> Done(c, st, e, {e.op})
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == err = <<>>
View == <<s, l, err>>
===============================================================================
