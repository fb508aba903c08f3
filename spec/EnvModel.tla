------------------------------- MODULE EnvModel -------------------------------
(***************************************************************************)
(* Environments as a closed system: an agent that plays any of a few moves,*)
(* resigns, tries an illegal move or starts again (one environment), or    *)
(* plays several environments at once.  Every history up to a bound is     *)
(* visited; with Keep it is printed for replay on the real environments.   *)
(***************************************************************************)
EXTENDS Env, Json, IOUtils

CONSTANT Keep
Scenes == ndJsonDeserialize(IOEnv.SCENES)
VARIABLES sc, evs, fin, spare, log      \* scene, environments, their games are over, unusual steps left, history
vars == <<sc, evs, fin, spare, log>>
Scene == Scenes[sc]
Base == NewStack([b |-> Scene.b, h |-> Scene.h, t |-> Scene.t], Scene.ply)
Init == /\ sc \in 1..Len(Scenes)
        /\ evs = Tab(LAMBDA i : IF Scene.envs = 1 THEN Base ELSE Fresh, Scene.envs)
        /\ fin = FALSE
        /\ spare = Scene.spare
        /\ log = <<>>
Moves(p) == { m \in LegalMoves(p) : \E i \in 1..Len(Scene.moves) : Scene.moves[i] = Usi(m) }
Note(x) == log' = Append(log, x)
More == Len(log) < Scene.depth
One == Scene.envs = 1 /\ More /\ sc' = sc /\
  \/ /\ ~fin
     /\ \E m \in Moves(Top(evs[1]).p) :
          /\ evs' = << Step(evs[1], m) >>
          /\ fin' = (StepOut(evs[1], m)[2] = 1)
          /\ spare' = spare
          /\ Note(<<"step", m>>)
  \/ /\ ~fin /\ spare > 0                       \* resign
     /\ evs' = evs /\ fin' = TRUE /\ spare' = spare - 1 /\ Note(<<"step", 0>>)
  \/ /\ ~fin /\ spare > 0                       \* an illegal move: nothing changes
     /\ evs' = evs /\ fin' = FALSE /\ spare' = spare - 1 /\ Note(<<"step", 1>>)
  \/ /\ fin \/ spare > 0
     /\ evs' = << Base >> /\ fin' = FALSE /\ spare' = (IF fin THEN spare ELSE spare - 1) /\ Note(<<"reset", 0>>)
\* two environments at once; move 0 resigns
Vec == Scene.envs = 2 /\ More /\ sc' = sc /\ fin' = FALSE /\
  \E a \in Moves(Top(evs[1]).p) \cup {0}, b \in Moves(Top(evs[2]).p) \cup {0} :
    LET k == (IF a = 0 THEN 1 ELSE 0) + (IF b = 0 THEN 1 ELSE 0) IN
    /\ k <= spare
    /\ spare' = spare - k
    /\ evs' = VNext(evs, <<a, b>>)
    /\ Note(<<"vstep", a, b>>)
Next == One \/ Vec
Spec == Init /\ [][Next]_vars

\* a game that goes on has legal moves and no position that occurred four times
InvGoing == ~fin => \A i \in 1..Len(evs) : (evs[i] = Base \/ evs[i] = Fresh) \/ (Seen(evs[i]) < 4 /\ ~NoLegalMove(Top(evs[i]).p))
\* no position ever occurs five times, in whatever way the games go
InvFour == \A i \in 1..Len(evs) : \A j \in 1..Len(evs[i]) : Cardinality({ x \in 1..Len(evs[i]) : evs[i][x].p = evs[i][j].p }) <= 4
\* the reward of the last step is the mover's: minus one only if it was caught checking for ever
InvReward == \A i \in 1..Len(evs) : Len(evs[i]) > 1 =>
  LET o == Outcome(evs[i]) IN
  /\ o[1] = "-1.0" => Seen(evs[i]) = 4 /\ Top(evs[i]).chk
  /\ o[1] = "1.0" => Seen(evs[i]) = 4 \/ Checkmated(Top(evs[i]).p) \/ NoLegalMove(Top(evs[i]).p)
  /\ o[2] = 0 => o[1] = "0.0"
Dump == (Keep /\ ~More) => PrintT("BEHAVIOUR " \o ToJson([k |-> sc, log |-> log]))
===============================================================================
