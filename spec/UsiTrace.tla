------------------------------- MODULE UsiTrace -------------------------------
(***************************************************************************)
(* Trace validation of the USI client against scripted engines.            *)
(*   call    a client call, the engine's scripted reply to the command, and *)
(*           what came of it                                                *)
(*   log     what the engine received over the whole connection             *)
(*   listen, feed, ask   a listener is reset, given a line, asked           *)
(***************************************************************************)
EXTENDS Usi, Json, IOUtils, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSess == Len(Trace)
VARIABLES s, l, up, q, dead, cmds, name, ls, err
tvars == <<s, l, up, q, dead, cmds, name, ls, err>>
TraceInit == s \in 1..NSess /\ l = 1 /\ up = FALSE /\ q = <<>> /\ dead = FALSE /\ cmds = <<>> /\ name = "None" /\ ls = <<>> /\ err = <<>>
Report(e, bad) == PrintT("MISMATCH " \o ToString(<<Trace[s].i, l, e.op, bad>>))

Observed(e) == <<e.exc, e.heard, e.ret>>
Matching(e, O) == { o \in O : <<o[2], o[3], o[4]>> = Observed(e) }

CallStep(e) ==
  LET fresh == e.f = "connect"
      gone == ~fresh /\ dead
      queue == IF fresh THEN e.out ELSE IF gone THEN q ELSE q \o e.out
      O == Outcomes(e, queue, gone, q, name)
      M == Matching(e, O)
      bad == (IF M = {} THEN {e.f \o " expected " \o ToString(CHOOSE o \in O : TRUE)} ELSE {})
             \cup (IF M # {} /\ e.ename # (CHOOSE o \in M : TRUE)[5] /\ ~(fresh /\ e.exc # "") THEN {"name"} ELSE {})
             \cup (IF ~fresh /\ ~up THEN {"driver: not connected"} ELSE {})
             \cup (IF e.alive # (IF e.f = "quit" THEN 0 ELSE 1) THEN {"connection"} ELSE {})
  IN /\ q' = IF M = {} THEN q ELSE (CHOOSE o \in M : TRUE)[1]
     /\ name' = IF M = {} THEN name ELSE (CHOOSE o \in M : TRUE)[5]
     /\ dead' = (gone \/ e.die = 1)
     /\ cmds' = IF fresh THEN << Command(e) >> ELSE IF gone THEN cmds ELSE Append(cmds, Command(e))
     /\ up' = (e.f # "quit")
     /\ ls' = ls
     /\ err' = IF bad = {} THEN <<>> ELSE IF Report(e, bad) THEN <<l, e.op, bad>> ELSE <<>>

Canon(v) == CASE v = "+1" -> "1" [] v = "+5" -> "5" [] v = "+12" -> "12" [] OTHER -> v
NegMate(v) == v \in {"-", "-1", "-3", "-12", "0"}
Best == LET z == ls[Len(ls)] IN IF z[1] = "bestmove" THEN z[2] ELSE "?"
FieldSet(x) == { <<f[1], Canon(f[2])>> : f \in { Fields(SubSeq(x, 2, LastPv(x, Len(x)) - 1))[i] : i \in 1..Len(InfoFields(x)) } }
AsSet(x) == { x[i] : i \in 1..Len(x) }
AskInfoBad(e) ==
  LET at == LastFor(ls, Best, Len(ls)) IN
  (IF e.best # Best THEN {"bestmove"} ELSE {})
  \cup (IF at = 0 THEN (IF e.pv = <<>> /\ e.score = "None" /\ e.fields = <<>> THEN {} ELSE {"something for an unknown move"})
        ELSE LET x == ls[at]
                 fs == InfoFields(x)
                 sc == IF Value(fs, "cp") # "None" THEN Value(fs, "cp")
                       ELSE IF Value(fs, "mate") = "None" THEN "None"
                       ELSE IF NegMate(Value(fs, "mate")) THEN "-" \o e.matescore ELSE e.matescore
             IN (IF e.pv # PvOf(x) THEN {"pv"} ELSE {})
                \cup (IF e.score # sc THEN {"score"} ELSE {})
                \cup (IF AsSet(e.fields) # FieldSet(x) \/ Len(e.fields) # Cardinality(FieldSet(x)) THEN {"info"} ELSE {})
                \cup (IF e.ipv # PvOf(x) THEN {"info pv"} ELSE {}))
\* the last line for each multipv number, in order of the numbers
MultiNo == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12">>
RECURSIVE LastMulti(_, _)
LastMulti(n, i) == IF i = 0 THEN 0 ELSE IF MultiOf(ls[i]) = n THEN i ELSE LastMulti(n, i - 1)
Multis == SelectSeq([i \in 1..Len(MultiNo) |-> LastMulti(MultiNo[i], Len(ls))], LAMBDA i : i > 0)
AskMultiBad(e) ==
  IF /\ Len(e.multi) = Len(Multis)
     /\ \A i \in 1..Len(Multis) : LET x == ls[Multis[i]] IN
          /\ AsSet(e.multi[i].fields) = FieldSet(x)
          /\ e.multi[i].pv = PvOf(x)
  THEN {} ELSE {"multipv"}
Quiet(e, ls2, bad) ==
  /\ UNCHANGED <<up, q, dead, cmds, name>>
  /\ ls' = ls2
  /\ err' = IF bad = {} THEN <<>> ELSE IF Report(e, bad) THEN <<l, e.op, bad>> ELSE <<>>
LogBad(e) ==
  (IF e.lines # cmds THEN {"the engine should have received " \o ToString(cmds)} ELSE {})
  \cup (IF e.cwd # 1 THEN {"not started in its directory"} ELSE {})
  \cup (IF e.argv # 1 THEN {"arguments"} ELSE {})

TraceNext ==
  /\ err = <<>>
  /\ l <= Len(Trace[s].ev)
  /\ l' = l + 1
  /\ s' = s
  /\ LET e == Trace[s].ev[l] IN
     CASE e.op = "call"   -> CallStep(e)
       [] e.op = "log"    -> Quiet(e, ls, LogBad(e))
       [] e.op = "listen" -> Quiet(e, <<>>, {})
       [] e.op = "feed"   -> Quiet(e, Append(ls, e.w), IF e.line # Words(e.w) THEN {"driver: line"} ELSE IF e.inner # e.line THEN {"inner listener"} ELSE {})
       [] e.op = "ask"    -> Quiet(e, ls, IF "multi" \in DOMAIN e THEN AskMultiBad(e) ELSE AskInfoBad(e))
       [] OTHER           -> Quiet(e, ls, {e.op})
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == err = <<>>
View == <<s, l, err>>
===============================================================================
