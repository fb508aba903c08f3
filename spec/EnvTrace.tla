------------------------------- MODULE EnvTrace -------------------------------
(***************************************************************************)
(* Trace validation of the reinforcement-learning environments.            *)
(*   new, reset, step, render       one environment                        *)
(*   vnew, vreset, vstep, vrender   a vector of them                       *)
(***************************************************************************)
EXTENDS Env, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSess == Len(Trace)
VARIABLES s, l, envs, err
tvars == <<s, l, envs, err>>
TraceInit == s \in 1..NSess /\ l = 1 /\ envs = <<>> /\ err = <<>>

ShowBad(e, S) ==
  LET p == Top(S).p IN
  (IF e.sfen # Sfen(p, Top(S).ply) THEN {"sfen"} ELSE {})
  \cup (IF "moves" \in DOMAIN e /\ e.moves # History(S) THEN {"moves"} ELSE {})
  \cup (IF "ansi" \in DOMAIN e /\ e.ansi # "'  9  8  7  6  5  4  3  2  1\n" \o CsaPos(p) THEN {"ansi"} ELSE {})
  \cup (IF "marks" \in DOMAIN e /\ e.marks # SvgMarks(Top(S).mv) THEN {"svg"} ELSE {})

Report(e, bad) == PrintT("MISMATCH " \o ToString(<<Trace[s].i, l, e.op, bad>>))
Done(envs2, e, bad) ==
  /\ envs' = envs2
  /\ err' = IF bad = {} THEN <<>> ELSE IF Report(e, bad) THEN <<l, e.op, bad>> ELSE <<>>

TraceNext ==
  /\ err = <<>>
  /\ l <= Len(Trace[s].ev)
  /\ l' = l + 1
  /\ s' = s
  /\ LET e == Trace[s].ev[l] IN
     CASE e.op = "new"    -> Done(Append(envs, Fresh), e, {})
       [] e.op = "reset"  -> LET S == IF "ab" \in DOMAIN e THEN NewStack(ArgPos(e), e.aply) ELSE Fresh IN Done([envs EXCEPT ![e.o] = S], e, {})
       [] e.op = "step"   -> IF ~Legal(envs[e.o], e.m)
                             THEN Done(envs, e, IF e.exc = "AssertionError" THEN {} ELSE {"illegal move accepted"})
                             ELSE Done([envs EXCEPT ![e.o] = Step(envs[e.o], e.m)], e,
                                       IF e.exc # "" THEN {"refused"} ELSE IF e.out = StepOut(envs[e.o], e.m) THEN {} ELSE {"outcome"})
       [] e.op = "render" -> Done(envs, e, ShowBad(e, envs[e.o]))
       [] e.op = "vnew"   -> Done(Tab(LAMBDA i : Fresh, e.n), e, {})
       [] e.op = "vreset" -> Done(Tab(LAMBDA i : Fresh, Len(envs)), e, {})
       [] e.op = "vstep"  -> IF \E i \in 1..Len(e.q) : ~Legal(envs[i], e.q[i]) THEN Done(envs, e, {"driver: illegal"})
                             ELSE Done(VNext(envs, e.q), e, IF e.out = VOut(envs, e.q) /\ \A i \in 1..3 : e.lens[i] = Len(e.q) THEN {} ELSE {"outcome"})
       [] e.op = "vrender" -> Done(envs, e, IF e.sfens = Map(LAMBDA S : Sfen(Top(S).p, Top(S).ply), envs) THEN {} ELSE {"sfen"})
       [] OTHER           -> Done(envs, e, {e.op})

TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == err = <<>>
View == <<s, l, err>>
===============================================================================
