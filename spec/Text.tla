--------------------------------- MODULE Text ---------------------------------
(***************************************************************************)
(* Text forms of squares, moves and positions: USI, SFEN, CSA.             *)
(***************************************************************************)
EXTENDS BoardOps

Digit == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
RankLetter == <<"a", "b", "c", "d", "e", "f", "g", "h", "i">>
UsiSq(s) == Digit[File(s) + 1] \o RankLetter[Rank(s) + 1]
CsaSq(s) == Digit[File(s) + 1] \o Digit[Rank(s) + 1]

UsiPt == <<"P", "L", "N", "S", "B", "R", "G", "K", "+P", "+L", "+N", "+S", "+B", "+R">>
UsiPtW == <<"p", "l", "n", "s", "b", "r", "g", "k", "+p", "+l", "+n", "+s", "+b", "+r">>
UsiPiece(p) == IF Col(p) = 0 THEN UsiPt[Typ(p)] ELSE UsiPtW[Typ(p)]
CsaPt == <<"FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY">>
CsaPiece(p) == IF p = 0 THEN " * " ELSE (IF Col(p) = 0 THEN "+" ELSE "-") \o CsaPt[Typ(p)]

Usi(m) == IF MvIsDrop(m) THEN UsiPt[MvDropType(m)] \o "*" \o UsiSq(MvTo(m))
          ELSE UsiSq(MvFrom(m)) \o UsiSq(MvTo(m)) \o (IF MvPromo(m) THEN "+" ELSE "")
Csa(m) == IF MvIsDrop(m) THEN "00" \o CsaSq(MvTo(m)) \o CsaPt[MvDropType(m)]
          ELSE CsaSq(MvFrom(m)) \o CsaSq(MvTo(m)) \o CsaPt[MvPt(m) + (IF MvPromo(m) THEN 8 ELSE 0)]

\* one rank of a SFEN board, files 9..1
RECURSIVE SfenRank(_, _, _, _)
SfenRank(b, r, f, n) ==
  IF f < 0 THEN (IF n > 0 THEN ToString(n) ELSE "")
  ELSE LET p == b[Ix(f, r)] IN
       IF p = 0 THEN SfenRank(b, r, f - 1, n + 1)
       ELSE (IF n > 0 THEN ToString(n) ELSE "") \o UsiPiece(p) \o SfenRank(b, r, f - 1, 0)
RECURSIVE SfenBoard(_, _)
SfenBoard(b, r) == SfenRank(b, r, 8, 0) \o (IF r = 8 THEN "" ELSE "/" \o SfenBoard(b, r + 1))
SfenHandOrder == <<7, 6, 5, 4, 3, 2, 1>>
RECURSIVE SfenHand(_, _, _)
SfenHand(h, c, i) ==
  IF i > 7 THEN ""
  ELSE LET k == SfenHandOrder[i]  n == h[k] IN
       (IF n = 0 THEN "" ELSE (IF n > 1 THEN ToString(n) ELSE "") \o UsiPiece(Mk(c, SlotType[k])))
       \o SfenHand(h, c, i + 1)
NoHands(p) == \A c \in 1..2 : \A i \in 1..7 : p.h[c][i] = 0
SfenHands(p) == IF NoHands(p) THEN "-" ELSE SfenHand(p.h[1], 0, 1) \o SfenHand(p.h[2], 1, 1)
Sfen(p, ply) == SfenBoard(p.b, 0) \o (IF p.t = 0 THEN " b " ELSE " w ") \o SfenHands(p)
                \o " " \o ToString(ply)

\* CSA position block
RECURSIVE CsaRank(_, _, _)
CsaRank(b, r, f) == IF f < 0 THEN "" ELSE CsaPiece(b[Ix(f, r)]) \o CsaRank(b, r, f - 1)
RECURSIVE CsaBoard(_, _)
CsaBoard(b, r) == IF r > 8 THEN "" ELSE "P" \o Digit[r + 1] \o CsaRank(b, r, 8) \o "\n" \o CsaBoard(b, r + 1)
RECURSIVE Rep(_, _)
Rep(n, x) == IF n = 0 THEN "" ELSE x \o Rep(n - 1, x)
RECURSIVE CsaHand(_, _, _)
CsaHand(h, c, i) ==
  IF i > 7 THEN ""
  ELSE (IF h[i] = 0 THEN "" ELSE (IF c = 0 THEN "P+" ELSE "P-") \o Rep(h[i], "00" \o CsaPt[SlotType[i]]) \o "\n")
       \o CsaHand(h, c, i + 1)
CsaPos(p) == CsaBoard(p.b, 0) \o CsaHand(p.h[1], 0, 1) \o CsaHand(p.h[2], 1, 1)
             \o (IF p.t = 0 THEN "+\n" ELSE "-\n")
===============================================================================
