--------------------------------- MODULE Parse ---------------------------------
(***************************************************************************)
(* Reading positions.  Inputs are sequences of one-character strings (text)*)
(* or of bytes.  The verdict on an input is                                *)
(*   [v |-> "ok", ...]   a well-formed input and the position it denotes   *)
(*   [v |-> "bad"]       an input that must be rejected                    *)
(*   [v |-> "free"]      an input outside the format on which the library  *)
(*                       makes no promise, except not to die               *)
(***************************************************************************)
EXTENDS Features

RECURSIVE Split(_, _)
\* <<characters before the first c, characters after it>>
FirstAt(q, c) == IF \E i \in 1..Len(q) : q[i] = c THEN CHOOSE i \in 1..Len(q) : q[i] = c /\ \A j \in 1..(i - 1) : q[j] # c ELSE 0
Split(q, c) == LET i == FirstAt(q, c) IN
  IF i = 0 THEN <<q>> ELSE << SubSeq(q, 1, i - 1) >> \o Split(SubSeq(q, i + 1, Len(q)), c)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CHOOSE n \in 0..9 : ToString(n) = c
LetterPiece ==
  [c \in {"P","L","N","S","B","R","G","K","p","l","n","s","b","r","g","k"} |->
     CHOOSE x \in Pieces : Typ(x) <= 8 /\ UsiPiece(x) = c]
Letters == DOMAIN LetterPiece

\* one rank: sequence of 9 pieces from file 9 to file 1, or "bad"
RECURSIVE RankPieces(_, _, _)
RankPieces(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE IF q[i] \in Digits THEN RankPieces(q, i + 1, acc \o Times(DigitVal(q[i]), <<0>>))
  ELSE IF q[i] = "+" /\ i < Len(q) /\ q[i + 1] \in Letters
       THEN RankPieces(q, i + 2, Append(acc, LetterPiece[q[i + 1]] + 8))
  ELSE IF q[i] \in Letters THEN RankPieces(q, i + 1, Append(acc, LetterPiece[q[i]]))
  ELSE Append(acc, -1)

RECURSIVE HandOf(_, _, _, _)
HandOf(q, i, n, h) ==        \* h: <<black, white>>
  IF i > Len(q) THEN (IF n = 0 THEN [v |-> "ok", h |-> h] ELSE [v |-> "free"])
  ELSE IF q[i] \in Digits THEN (IF n * 10 + DigitVal(q[i]) > 18 THEN [v |-> "free"] ELSE HandOf(q, i + 1, n * 10 + DigitVal(q[i]), h))
  ELSE IF q[i] \notin Letters THEN [v |-> IF q[i] = "-" THEN "free" ELSE "bad"]
  ELSE LET p == LetterPiece[q[i]] IN
       IF Typ(p) = KING THEN [v |-> "free"]
       ELSE IF n > FullSet[HandSlot[Typ(p)]] THEN [v |-> "free"]        \* more than there are in the game
       ELSE IF h[Col(p) + 1][HandSlot[Typ(p)]] # 0 THEN [v |-> "free"]
       ELSE HandOf(q, i + 1, 0, [h EXCEPT ![Col(p) + 1][HandSlot[Typ(p)]] = IF n = 0 THEN 1 ELSE n])
EmptyHands == << <<0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0>> >>
HandText(q) == IF q = <<"-">> THEN [v |-> "ok", h |-> EmptyHands] ELSE HandOf(q, 1, 0, EmptyHands)
RECURSIVE NumOf(_, _, _)
NumOf(q, i, n) == IF i > Len(q) THEN n ELSE IF q[i] \notin Digits \/ n > 99999 THEN -1 ELSE NumOf(q, i + 1, n * 10 + DigitVal(q[i]))

BoardChars == Letters \cup Digits \cup {"+", "/"}
\* a SFEN of four fields separated by single blanks
SfenVerdict(q) ==
  LET fs == Split(q, " ") IN
  IF \E i \in 1..Len(fs[1]) : fs[1][i] \notin BoardChars THEN [v |-> "bad"]
  ELSE LET rows == Split(fs[1], "/")
           R(i) == RankPieces(rows[i], 1, <<>>)
       IN
       \* a piece to the right of file 1 is always an error
       IF \E i \in 1..Len(rows) : Len(R(i)) > 9 /\ i = 1 /\ \E k \in 10..Len(R(i)) : R(i)[k] > 0 THEN [v |-> "bad"]
       ELSE IF Len(rows) # 9 \/ \E i \in 1..Len(rows) : Len(R(i)) # 9 \/ \E k \in 1..Len(R(i)) : R(i)[k] \in {-1, 15, 16, 31, 32}
       THEN [v |-> "free"]
       ELSE IF Len(fs) >= 2 /\ \E k \in 1..Len(fs[2]) : fs[2][k] \notin {"b", "w"} THEN [v |-> "bad"]
       ELSE IF Len(fs) # 4 \/ fs[2] \notin {<<"b">>, <<"w">>} THEN
            (IF Len(fs) >= 3 /\ HandText(fs[3]).v = "bad" THEN [v |-> "bad"] ELSE [v |-> "free"])
       ELSE LET h == HandText(fs[3])
                n == NumOf(fs[4], 1, 0)
                rws == Tab(R, 9)
                Pc(s) == rws[Rank(s) + 1][9 - File(s)]
            IN IF h.v # "ok" THEN [v |-> h.v]
               ELSE IF fs[4] = <<>> \/ n <= 0 THEN [v |-> "free"]
               ELSE [v |-> "ok", p |-> [b |-> Tab(Pc, 81), h |-> h.h, t |-> IF fs[2] = <<"b">> THEN 0 ELSE 1], ply |-> n]

(* --- packed positions --------------------------------------------------- *)
BitAt(q, i) == (q[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2
RECURSIVE Val(_, _, _)
Val(q, i, n) == IF n = 0 THEN 0 ELSE BitAt(q, i) + 2 * Val(q, i + 1, n - 1)
PackedVerdict(q) ==
  LET k0 == Val(q, 1, 7)  k1 == Val(q, 8, 7) IN
  IF k0 > 80 \/ k1 > 80 \/ k0 = k1 THEN [v |-> "bad"] ELSE [v |-> "free"]

\* raw inputs: e.exc is "" or the exception raised; when the input is well formed the resulting board is in e
RawVerdict(e) == IF e.fmt = "sfen" THEN SfenVerdict(e.in) ELSE PackedVerdict(e.in)
RawBad(e) ==
  LET v == RawVerdict(e) IN
  IF v.v = "bad" THEN (IF e.rexc = "RuntimeError" THEN {} ELSE {"malformed input accepted"})
  ELSE IF v.v = "free" THEN {}
  ELSE IF e.rexc # "" THEN {"well-formed input rejected"}
  ELSE IF e.rb = v.p.b /\ e.rh = v.p.h /\ e.rt = v.p.t /\ e.rply = v.ply THEN {} ELSE {"input read wrongly"}
===============================================================================
