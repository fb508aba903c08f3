--------------------------------- MODULE League ---------------------------------
(***************************************************************************)
(* A league of three engines, as the command line runs it: rounds in which *)
(* each pair plays a match of two games, colours changed, from the same    *)
(* opening; after each round the table of the pairs is printed.            *)
(*                                                                         *)
(* State lg of a league:                                                   *)
(*   on     there is a league (otherwise the session is a single match)    *)
(*   games  the number of games of each pair       names   of the engines  *)
(*   mode   openings: none, index, shuffle          k     how many         *)
(*   index  the opening asked for                   ops   of each round    *)
(*   n      matches finished                        won   totals per pair  *)
(***************************************************************************)
EXTENDS Match

Pairs == << <<1, 2>>, <<1, 3>>, <<2, 3>> >>
NoLeague == [ on |-> FALSE, games |-> 0, names |-> <<>>, mode |-> "none", k |-> 0, index |-> 0, ops |-> <<>>, n |-> 0,
              won |-> << <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>> >> ]
LeagueOf(e) == [NoLeague EXCEPT !.on = TRUE, !.games = e.games, !.names = e.names, !.mode = e.mode, !.k = e.n, !.index = e.index]
Pair(lg) == (lg.n % 3) + 1
Round(lg) == (lg.n \div 3) + 1

\* a match starts from opening o (0: the usual position)
Started(lg, o) == IF lg.on /\ Pair(lg) = 1 THEN [lg EXCEPT !.ops = Append(@, o)] ELSE lg
\* every opening has its turn before any comes again, and then in the same order
OpeningOk(lg, o) ==
  LET r == Round(lg) IN
  IF Pair(lg) > 1 THEN o = lg.ops[r]
  ELSE CASE lg.mode = "none" -> o = 0
         [] lg.mode = "index" -> o = lg.index
         [] OTHER -> o \in 1..lg.k /\ IF r > lg.k THEN o = lg.ops[r - lg.k] ELSE \A i \in 1..(r - 1) : lg.ops[i] # o
StartBad(lg, e) ==
  IF ~lg.on THEN {}
  ELSE (IF OpeningOk(lg, e.index) THEN {} ELSE {"opening"})
       \cup (IF lg.n >= 3 * (lg.games \div 2) THEN {"one match too many"} ELSE {})
       \cup (IF << NameOf(e, 1), NameOf(e, 2) >> # << lg.names[Pairs[Pair(lg)][1]], lg.names[Pairs[Pair(lg)][2]] >> THEN {"driver: names"} ELSE {})
Ended(lg, z) == IF ~lg.on THEN lg
                ELSE [lg EXCEPT !.n = @ + 1, !.won[Pair(lg)] = << @[1] + z.e1, @[2] + z.e2, @[3] + z.d >>]
Table(lg) == << Str(2 * (lg.n \div 3)) \o " of " \o Str(lg.games) \o " games finished." >>
             \o Tab(LAMBDA i : lg.names[Pairs[i][1]] \o " vs " \o lg.names[Pairs[i][2]] \o ": " \o Score3(lg.won[i][1], lg.won[i][2], lg.won[i][3]), 3)

\* --- the order of shuffled openings ------------------------------------------------
\* q: the opening of each game, k of them in all; the games come in groups that share one
InOrder(q, k, group) ==
  /\ \A i \in 1..Len(q) : q[i] \in 1..k /\ q[i] = q[i - ((i - 1) % group)]
  /\ \A i \in 1..Len(q), j \in 1..Len(q) :
       LET a == (i - 1) \div group
           b == (j - 1) \div group
       IN (q[i] = q[j]) = (a % k = b % k)
OrdersBad(e) ==
  LET group == IF e.kind = "league" THEN 6 ELSE 2
      len == IF e.kind = "league" THEN 3 * e.games ELSE e.games
  IN (IF e.exc # "" THEN {e.exc} ELSE {})
     \cup (IF \E i \in 1..2 : Len(e.got[i]) # len \/ ~InOrder(e.got[i], e.n, group) THEN {"order of openings"} ELSE {})
     \cup (IF e.seeded = 1 /\ e.got[1] # e.got[2] THEN {"the same seed, another order"} ELSE {})
===============================================================================
