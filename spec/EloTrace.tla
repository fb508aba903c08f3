-------------------------------- MODULE EloTrace --------------------------------
(***************************************************************************)
(* Trace validation of the rating figures: each event has the counts and   *)
(* what the library says about them, ratings and percentages in hundredths *)
(* (margin -1: refused).  A session also relates results to each other:    *)
(* more wins never lower a rating, exchanging the players reverses it.     *)
(***************************************************************************)
EXTENDS Elo, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSess == Len(Trace)
VARIABLES s, l, prev, err
tvars == <<s, l, prev, err>>
TraceInit == s \in 1..NSess /\ l = 1 /\ prev = <<>> /\ err = <<>>
Report(e, bad) == PrintT("MISMATCH " \o ToString(<<Trace[s].i, l, e.op, bad>>))

Figures(e) ==
  LET n == Games(e.w, e.l, e.d) IN
  (IF e.exc # "" THEN {e.exc} ELSE {})
  \cup (IF ~Ratio(Points(e.w, e.d), 2 * n, e.points) THEN {"point ratio"} ELSE {})
  \cup (IF ~Ratio(e.d, n, e.draws) THEN {"draw ratio"} ELSE {})
  \cup (IF Rated(e.w, e.l, e.d) /\ ~Near(e.diff, EloDiff(e.w, e.l, e.d), 4) THEN {"difference"} ELSE {})
  \cup (IF Rated(e.w, e.l, e.d) /\ ~MarginOk(e.w, e.l, e.d, e.margin, 10) THEN {"margin"} ELSE {})
  \cup (IF e.w + e.l > 0 /\ ~LosOk(e.w, e.l, e.los) THEN {"likelihood of superiority"} ELSE {})
\* p: the event before
Related(p, e) ==
  CASE e.rel = "swap" -> (IF Rated(e.w, e.l, e.d) /\ (e.diff # 0 - p.diff \/ e.margin # p.margin) THEN {"not reversed"} ELSE {})
                         \cup (IF e.w + e.l > 0 /\ ~Near(e.los, 10000 - p.los, 1) THEN {"superiority not reversed"} ELSE {})
    [] e.rel = "more" -> (IF Rated(p.w, p.l, p.d) /\ Rated(e.w, e.l, e.d) /\ e.diff < p.diff THEN {"a win lowers the rating"} ELSE {})
                         \cup (IF e.w + e.l > 1 /\ e.los < p.los THEN {"a win makes superiority less likely"} ELSE {})
    [] e.rel = "times" -> (IF Rated(e.w, e.l, e.d) /\ (~Near(e.diff, p.diff, 1) \/ (p.margin # -1 /\ (e.margin = -1 \/ e.margin > p.margin)))
                           THEN {"more of the same"} ELSE {})
    [] OTHER -> {}
TraceNext ==
  /\ err = <<>>
  /\ l <= Len(Trace[s].ev)
  /\ l' = l + 1
  /\ s' = s
  /\ LET e == Trace[s].ev[l]
         bad == IF e.op # "elo" THEN {e.op} ELSE LET f == Figures(e) IN IF f # {} THEN f ELSE Related(prev, e) IN
     /\ prev' = e
     /\ err' = IF bad = {} THEN <<>> ELSE IF Report(e, bad) THEN <<l, e.op, bad>> ELSE <<>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == err = <<>>
View == <<s, l, err>>
===============================================================================
