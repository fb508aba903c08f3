------------------------------- MODULE UsiModel -------------------------------
(***************************************************************************)
(* The USI client and an engine that answers each command with one of a    *)
(* few scripts - properly, with extra lines, late, or by dying before,     *)
(* during or after the answer - as a closed system.  Every history of      *)
(* calls up to a bound is visited; with Keep it is printed for replay on   *)
(* the real client.                                                        *)
(***************************************************************************)
EXTENDS Usi, Json, Integers

CONSTANTS Keep, Depth
VARIABLES up,       \* connected
          unread,   \* lines printed by the engine and not read yet
          dead,     \* the engine is gone
          ename,    \* the engine's name as known to the client
          said,     \* all lines printed since the connection was made
          taken,    \* all lines read since then
          last,     \* outcome of the last call
          log
vars == <<up, unread, dead, ename, said, taken, last, log>>

IdN == <<"id", "name", "X", "1.0">>
Info == <<"info", "depth", "3", "score", "cp", "30", "pv", "7g7f">>
Late == <<"info", "string", "late">>
B1 == <<"bestmove", "7g7f">>
B2 == <<"bestmove", "2g2f", "ponder", "8c8d">>
\* <<lines, dies afterwards>>
Replies(f) ==
  CASE f \in {"connect", "usi"} -> { << <<IdN, <<"usiok">> >>, 0 >>, << <<Late, IdN, <<"usiok">>, Late>>, 0 >>, << <<IdN, <<"usiok">> >>, 1 >>, << <<IdN>>, 1 >>, << <<>>, 1 >> }
    [] f = "isready" -> { << << <<"readyok">> >>, 0 >>, << <<Late, <<"readyok">> >>, 0 >>, << <<Late>>, 1 >>, << << <<"readyok">> >>, 1 >> }
    [] f = "go" -> { << <<B1>>, 0 >>, << <<Info, B2>>, 0 >>, << <<B1, B2>>, 0 >>, << <<Info>>, 1 >>, << <<Info, <<"bestmove", "resign">> >>, 1 >>, << <<>>, 0 >> }
    [] f = "go_mate" -> { << << <<"checkmate", "G*5b", "5a4a">> >>, 0 >>, << <<Info, <<"checkmate", "nomate">> >>, 0 >>, << <<>>, 1 >> }
    [] f = "stop" -> { << <<>>, 0 >>, << <<B2>>, 0 >>, << <<B1>>, 1 >> }
    [] f = "position" -> { << <<>>, 0 >>, << <<>>, 1 >> }
    [] f = "quit" -> { << <<>>, 0 >> }
    [] OTHER -> { << <<>>, 0 >>, << <<Late>>, 0 >> }
\* calls without arguments that matter here
Call(f) == [f |-> f, mode |-> "fn", sfen |-> "None", moves |-> <<>>, ponder |-> 0, btime |-> "None", wtime |-> "None", byoyomi |-> "None", binc |-> "None",
            winc |-> "None", nodes |-> "None", result |-> "None"]
Init == up = FALSE /\ unread = <<>> /\ dead = FALSE /\ ename = "None" /\ said = <<>> /\ taken = <<>> /\ last = <<>> /\ log = <<>>
Calls == IF ~up THEN {"connect"} ELSE {"usi", "isready", "usinewgame", "position", "go", "go_mate", "stop", "gameover", "quit"}
Do(f) == \E r \in Replies(f) :
  LET gone == up /\ dead
      queue == IF f = "connect" THEN r[1] ELSE IF gone THEN unread ELSE unread \o r[1]
      dies == gone \/ r[2] = 1
  IN /\ f = "quit" => Len(log) > 0
     /\ gone => r = CHOOSE x \in Replies(f) : TRUE       \* a dead engine says nothing: one script stands for all
     /\ Waits(f) => dies \/ EndAt(f, queue, 1) > 0       \* an engine that neither answers nor dies keeps the client waiting
     /\ \E o \in Outcomes(Call(f), queue, gone, unread, ename) :
          /\ unread' = o[1]
          /\ ename' = o[5]
          /\ last' = << f, o[2], o[4] >>
          /\ taken' = (IF f = "connect" THEN <<>> ELSE taken) \o (IF o[2] = "BrokenPipeError" THEN <<>> ELSE SubSeq(queue, 1, Len(queue) - Len(o[1])))
     /\ said' = IF f = "connect" THEN r[1] ELSE IF gone THEN said ELSE said \o r[1]
     /\ dead' = dies
     /\ up' = (f # "quit")
     /\ log' = Append(log, <<f, IF gone THEN <<>> ELSE r[1], IF gone THEN 0 ELSE r[2]>>)
\* a failed connection ends the history
Finished == (log # <<>> /\ log[Len(log)][1] = "quit") \/ (log # <<>> /\ last[1] = "connect" /\ last[2] # "")
Next == /\ ~Finished
        /\ \E f \in Calls : (f = "quit" \/ Len(log) < Depth) /\ Do(f)
Spec == Init /\ [][Next]_vars

\* every line is read once, in the order printed
InvNothingLost == taken \o unread = said
\* a call that waits returns what the line that ended the wait says, or fails because the engine is gone
InvAnswered == last # <<>> /\ Waits(last[1]) =>
  IF last[2] = "" THEN taken # <<>> /\ IsEnd(last[1], taken[Len(taken)]) /\ (last[1] = "go" => last[3][1] = taken[Len(taken)][2])
  ELSE dead /\ last[3] = <<>>
\* a client that keeps asking a live engine is never told that the engine is gone
InvHonest == last # <<>> /\ last[2] # "" => dead
InvNamed == up /\ ~Finished /\ last # <<>> /\ (\A i \in 1..Len(log) : log[i][1] # "connect" \/ i = 1) => ename = "X 1.0"
Dump == (Keep /\ Finished) => PrintT("BEHAVIOUR " \o ToJson([log |-> log]))
===============================================================================
