---------------------------------- MODULE Usi ----------------------------------
(***************************************************************************)
(* The USI client: commands it sends, how it consumes what the engine      *)
(* prints, and what the listeners make of it.  Lines are token sequences;  *)
(* the engine's output is a queue the client reads from, and a dead engine *)
(* gives end-of-file once the queue is empty.                              *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets, TLC

RECURSIVE Words(_)
Words(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Words(Tail(q))
RECURSIVE Has(_, _)
Has(q, x) == q # <<>> /\ (Head(q) = x \/ Has(Tail(q), x))
Opt(e, k) == IF k \in DOMAIN e /\ e[k] # "None" THEN <<k, e[k]>> ELSE <<>>
Flat(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o q[i] IN F[Len(q)]

\* --- commands (arguments are strings; "None": not given) ----------------------
Command(e) ==
  CASE e.f = "connect" -> "usi"
    [] e.f = "usi" -> "usi"
    [] e.f = "setoption" -> Words(<<"setoption name", e.name, "value", e.value>>)
    [] e.f = "isready" -> "isready"
    [] e.f = "usinewgame" -> "usinewgame"
    [] e.f = "position" -> Words(<<"position", IF e.sfen = "None" THEN "startpos" ELSE e.sfen>> \o (IF e.moves = <<>> THEN <<>> ELSE <<"moves">> \o e.moves))
    \* byoyomi and increments exclude each other: with byoyomi, increments are not sent
    [] e.f = "go" -> Words(<<"go">> \o (IF e.ponder = 1 THEN <<"ponder">> ELSE <<>>) \o Opt(e, "btime") \o Opt(e, "wtime") \o Opt(e, "byoyomi")
                           \o (IF e.byoyomi = "None" THEN Opt(e, "binc") \o Opt(e, "winc") ELSE <<>>) \o Opt(e, "nodes"))
    [] e.f = "go_mate" -> Words(<<"go mate", IF e.byoyomi = "None" THEN "infinite" ELSE e.byoyomi>>)
    [] e.f = "ponderhit" -> "ponderhit"
    [] e.f = "stop" -> "stop"
    [] e.f = "gameover" -> IF e.result = "None" THEN "gameover" ELSE Words(<<"gameover", e.result>>)
    [] e.f = "quit" -> "quit"
Waits(f) == f \in {"connect", "usi", "isready", "go", "go_mate"}
IsEnd(f, line) ==
  CASE f \in {"connect", "usi"} -> line = <<"usiok">>
    [] f = "isready" -> line = <<"readyok">>
    [] f = "go" -> Head(line) = "bestmove"
    [] f = "go_mate" -> Head(line) = "checkmate"
\* index of the line that ends the wait, 0 if none has arrived
RECURSIVE EndAt(_, _, _)
EndAt(f, q, i) == IF i > Len(q) THEN 0 ELSE IF IsEnd(f, q[i]) THEN i ELSE EndAt(f, q, i + 1)

\* --- what a waiting call returns ------------------------------------------------
IdNames(q) == SelectSeq(q, LAMBDA x : Len(x) >= 2 /\ x[1] = "id" /\ x[2] = "name")
EngineName(q) == LET n == IdNames(q) IN Words(SubSeq(n[Len(n)], 3, Len(n[Len(n)])))
Returned(f, q) ==
  LET z == q[Len(q)] IN
  CASE f = "usi" -> [i \in 1..(Len(q) - 1) |-> Words(q[i])]
    [] f = "go" -> << z[2], IF Len(z) = 4 /\ z[3] = "ponder" THEN z[4] ELSE "None" >>
    [] f = "go_mate" -> << Words(Tail(z)) >>
    [] OTHER -> <<>>

\* --- a call ------------------------------------------------------------------------
Texts(x) == [i \in 1..Len(x) |-> Words(x[i])]
Heard(e, x) == IF e.mode = "none" THEN <<>> ELSE x
\* The call's possible outcomes: <<unread lines, exception, what is heard, what is returned, engine name>>.
\* q: unread lines before the call; queue is what the engine has printed and nobody has read, including the reply to this command.
Outcomes(e, queue, gone, q, name) ==
  LET k == IF Waits(e.f) THEN EndAt(e.f, queue, 1) ELSE 0
      c == << Command(e) >>
      read == SubSeq(queue, 1, k)
      okay == IF ~Waits(e.f) THEN {<<queue, "", Heard(e, c), <<>>, name>>}
              ELSE IF k = 0 THEN {<<<<>>, "EOFError", Heard(e, IF e.f = "connect" THEN c ELSE c \o Texts(queue)), <<>>, name>>}
              ELSE IF e.f = "connect" THEN {<<SubSeq(queue, k + 1, Len(queue)), "", Heard(e, c \o <<EngineName(read)>>), <<>>, EngineName(read)>>}
              ELSE {<<SubSeq(queue, k + 1, Len(queue)), "", Heard(e, c \o Texts(read)), Returned(e.f, read), name>>}
  IN okay \cup (IF gone /\ e.f # "quit" THEN {<<q, "BrokenPipeError", Heard(e, c), <<>>, name>>} ELSE {})
\* --- listeners -------------------------------------------------------------------
\* position of the last "pv" that something follows, 0 if none
RECURSIVE LastPv(_, _)
LastPv(q, i) == IF i <= 1 THEN 0 ELSE IF q[i] = "pv" /\ i < Len(q) THEN i ELSE LastPv(q, i - 1)
IsInfo(q) == q[1] = "info" /\ LastPv(q, Len(q)) > 0
PvOf(q) == SubSeq(q, LastPv(q, Len(q)) + 1, Len(q))
\* the fields before the pv, as <<name, value>>; a flag has the value "True"
RECURSIVE Fields(_)
Fields(q) ==
  IF q = <<>> THEN <<>>
  ELSE IF q[1] \in {"lowerbound", "upperbound"} THEN << <<q[1], "True">> >> \o Fields(Tail(q))
  ELSE IF q[1] = "score" THEN << <<"score", q[2]>>, <<q[2], q[3]>> >> \o Fields(SubSeq(q, 4, Len(q)))
  ELSE << <<q[1], q[2]>> >> \o Fields(SubSeq(q, 3, Len(q)))
InfoFields(q) == Fields(SubSeq(q, 2, LastPv(q, Len(q)) - 1))
\* the last evaluation whose line of play starts with move m
RECURSIVE LastFor(_, _, _)
LastFor(q, m, i) == IF i = 0 THEN 0 ELSE IF IsInfo(q[i]) /\ PvOf(q[i])[1] = m THEN i ELSE LastFor(q, m, i - 1)
Value(fs, k) == LET I == { i \in 1..Len(fs) : fs[i][1] = k } IN IF I = {} THEN "None" ELSE fs[CHOOSE i \in I : TRUE][2]
MultiOf(q) == LET I == { i \in 2..(Len(q) - 2) : q[i] = "multipv" } IN IF I = {} \/ ~IsInfo(q) THEN "0" ELSE q[(CHOOSE i \in I : TRUE) + 1]
===============================================================================
