------------------------------ MODULE BoardTrace ------------------------------
(***************************************************************************)
(* Trace validation of the real Board: every recorded session is a         *)
(* behaviour of Board's state machine, and every value the real object     *)
(* reported equals the value the specification computes.                   *)
(* One initial state per session; sessions are independent.                *)
(***************************************************************************)
EXTENDS BoardObs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSess == Len(Trace)

VARIABLES s,      \* session
          l,      \* next event
          st,     \* board id -> stack of frames
          kz,     \* position keys seen in this session: key -> position
          err     \* <<>> or a description of the first mismatch
tvars == <<s, l, st, kz, err>>

TraceInit == /\ s \in 1..NSess
             /\ l = 1
             /\ st = [o \in {} |-> <<>>]
             /\ kz = [k \in {} |-> <<>>]
             /\ err = <<>>

\* A position key is a function of the position alone, and no two positions share one.
KeyBad(e, S) ==
  IF "hash" \notin DOMAIN e THEN {}
  ELSE LET p == Top(S).p IN
       IF e.hash \in DOMAIN kz
       THEN (IF kz[e.hash] = p THEN {} ELSE {"hash: two positions, one key"})
       ELSE (IF \E k \in DOMAIN kz : kz[k] = p THEN {"hash: one position, two keys"} ELSE {})

\* the observations of event e that disagree with stack S of the board
BadFields(e, S) == { f \in DOMAIN e \cap Observed : ~ObsOk(f, e, S) }

Report(e, bad) ==
  PrintT("MISMATCH " \o ToString(<<Trace[s].i, l, e.op, bad>>))

Finish(e, st2, o, pre) ==
  LET bad == IF pre # {} THEN pre ELSE BadFields(e, st2[o]) \cup KeyBad(e, st2[o])
  IN /\ st' = st2
     /\ kz' = IF "hash" \in DOMAIN e /\ pre = {} THEN (e.hash :> Top(st2[o]).p) @@ kz ELSE kz
     /\ err' = IF bad = {} THEN <<>> ELSE IF Report(e, bad) THEN <<l, e.op, bad>> ELSE <<>>

TraceNext ==
  /\ err = <<>>
  /\ l <= Len(Trace[s].ev)
  /\ l' = l + 1
  /\ s' = s
  /\ LET e == Trace[s].ev[l]
         o == IF "o" \in DOMAIN e THEN e.o ELSE 1
         Stk == st[o]
         Set(S) == (o :> S) @@ st
     IN CASE e.op = "set"   -> Finish(e, Set(SetStack(e)), o, {})
          [] e.op = "push"  -> IF IsLegal(Top(Stk).p, e.m)
                               THEN Finish(e, Set(PushMove(Stk, e.m)), o, {})
                               ELSE Finish(e, st, o, {"illegal move offered"})
          [] e.op = "pop"   -> IF CanPop(Stk) THEN Finish(e, Set(PopMove(Stk)), o, PopBad(e, Stk))
                               ELSE Finish(e, st, o, {"driver: pop on empty"})
          [] e.op = "pass"  -> Finish(e, Set(PushPass(Stk)), o, {})
          [] e.op = "unpass" -> Finish(e, Set(PopPass(Stk)), o, {})
          [] e.op = "copy"  -> Finish(e, (o :> st[e.from]) @@ st, o, {})
          [] e.op = "obs"   -> Finish(e, st, o, {})
          [] e.op = "turn"  -> Finish(e, Set(SetTurn(Stk, e.v)), o, {})
          [] e.op = "ply"   -> Finish(e, Set(SetPly(Stk, e.v)), o, {})
          [] e.op = "pieces" -> Finish(e, Set(SetPieces(Stk, e)), o, {})
          [] e.op = "raw"   -> Finish(e, st, o, RawBad(e))
          [] OTHER          -> /\ st' = st
                               /\ kz' = kz
                               /\ err' = IF Report(e, {e.op}) THEN <<l, e.op>> ELSE <<>>

TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == err = <<>>
View == <<s, l, err>>
===============================================================================
