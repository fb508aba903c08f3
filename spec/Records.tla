-------------------------------- MODULE Records --------------------------------
(***************************************************************************)
(* Game records: the CSA, KIF, KI2 and PGN forms of a game, and diagrams   *)
(* of a position.  Two machines share the state "game so far":             *)
(*   a writer is given moves, times, comments and an ending, and each call *)
(*   adds exactly the text of that item to the record;                     *)
(*   a reader consumes the record item by item; its result is the game the *)
(*   items denote.                                                         *)
(* An item of a record is a structured value; its text is defined here, so *)
(* a recorded line is matched with its meaning by writing it, not by       *)
(* guessing.                                                               *)
(***************************************************************************)
EXTENDS BoardObs

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Map(F(_), q) == Tab(LAMBDA i : F(q[i]), Len(q))
Str(n) == ToString(n)
Pad(n, w) == LET s == Str(n) IN Rep(IF w > Len(s) THEN w - Len(s) ELSE 0, " ") \o s
Zero2(n) == IF n < 10 THEN "0" \o Str(n) ELSE Str(n)
RECURSIVE Contains(_, _)
Contains(q, x) == q # <<>> /\ (Head(q) = x \/ Contains(Tail(q), x))

StartPos ==
  LET back == <<LANCE, KNIGHT, SILVER, GOLD, KING, GOLD, SILVER, KNIGHT, LANCE>>
      At(s) == LET r == Rank(s)  f == File(s) IN
               CASE r = 0 -> Mk(1, back[f + 1])
                 [] r = 8 -> Mk(0, back[f + 1])
                 [] r = 2 -> Mk(1, PAWN)
                 [] r = 6 -> Mk(0, PAWN)
                 [] r = 1 /\ f = 1 -> Mk(1, BISHOP)
                 [] r = 1 /\ f = 7 -> Mk(1, ROOK)
                 [] r = 7 /\ f = 7 -> Mk(0, BISHOP)
                 [] r = 7 /\ f = 1 -> Mk(0, ROOK)
                 [] OTHER -> 0
  IN [b |-> Tab(At, 81), h |-> EmptyHands, t |-> 0]

(* --- results -------------------------------------------------------------- *)
\* who loses when the game ends with code c and side t is to move: 0, 1, or -1 for nobody
Loser(c, t) ==
  CASE c \in {"%TORYO", "%TIME_UP", "%ILLEGAL_MOVE"} -> t
    [] c = "%+ILLEGAL_ACTION" -> 0
    [] c = "%-ILLEGAL_ACTION" -> 1
    [] c = "%KACHI" -> Opp(t)
    [] OTHER -> -1
WinName(l) == IF l = 0 THEN "WHITE" ELSE IF l = 1 THEN "BLACK" ELSE "DRAW"

(* --- CSA ------------------------------------------------------------------- *)
Sign(c) == IF c = 0 THEN "+" ELSE "-"
CsaStartText == "PI\n+\n"
CsaPosText(p) == IF p = StartPos THEN CsaStartText ELSE CsaPos(p)
CsaMoveText(t, m) == Sign(t) \o Csa(m)
\* what Exporter.info writes
CsaInfo(e, p) ==
  (IF e.append = 1 THEN "/\n" ELSE "")
  \o (IF e.ver # "" THEN e.ver \o "\n" ELSE "")
  \o (IF e.names # <<>> THEN "N+" \o e.names[1] \o "\nN-" \o e.names[2] \o "\n" ELSE "")
  \o (IF e.cmt # "" THEN "'" \o e.cmt \o "\n" ELSE "")
  \o Cat(Map(LAMBDA kv : "$" \o kv[1] \o ":" \o kv[2] \o "\n", e.vars))
  \o (IF e.init = "none" THEN CsaStartText ELSE CsaPosText(p))
CsaWMove(e, t) ==
  CsaMoveText(t, e.m) \o (IF e.time >= 0 THEN e.sep \o "T" \o Str(e.time) ELSE "")
  \o (IF e.cmt # "" THEN e.sep \o "'" \o e.cmt ELSE "") \o "\n"
CsaWEnd(e) == e.code \o "\n" \o (IF e.time >= 0 THEN "T" \o Str(e.time) \o "\n" ELSE "")

(* --- Japanese move texts ----------------------------------------------------- *)
KNum == <<"１", "２", "３", "４", "５", "６", "７", "８", "９">>
KKan == <<"一", "二", "三", "四", "五", "六", "七", "八", "九", "十", "十一", "十二", "十三", "十四", "十五", "十六", "十七", "十八">>
KSq(s) == KNum[File(s) + 1] \o KKan[Rank(s) + 1]
KPiece == <<"歩", "香", "桂", "銀", "角", "飛", "金", "玉", "と", "杏", "圭", "全", "馬", "龍">>
\* other ways to write the same pieces, which a reader accepts
KPiece2 == <<"歩", "香", "桂", "銀", "角", "飛", "金", "王", "と", "成香", "成桂", "成銀", "馬", "竜">>
K2Piece == [KPiece2 EXCEPT ![8] = "玉", ![14] = "龍"]
Moved(m) == IF MvIsDrop(m) THEN MvDropType(m) ELSE MvPt(m)

KTarget(m, last) == IF last # 0 /\ MvTo(last) = MvTo(m) THEN "同　" ELSE KSq(MvTo(m))
KTail(m) == IF MvIsDrop(m) THEN "打" ELSE (IF MvPromo(m) THEN "成" ELSE "") \o "(" \o CsaSq(MvFrom(m)) \o ")"
KifMove(m, last) == KTarget(m, last) \o KPiece[Moved(m)] \o KTail(m)
CeilSec(ms) == (ms + 999) \div 1000
KifClock(ms, sum) ==
  LET a == CeilSec(ms)  b == CeilSec(sum) IN
  "(" \o Pad(a \div 60, 2) \o ":" \o Zero2(a % 60) \o "/" \o Zero2(b \div 3600) \o ":" \o Zero2((b % 3600) \div 60) \o ":" \o Zero2(b % 60) \o ")"
KifPadding(m) == IF MvIsDrop(m) THEN "    " ELSE IF MvPromo(m) THEN "" ELSE "  "
KifLine(n, m, last, ms, sum) == Pad(n, 4) \o " " \o KifMove(m, last) \o KifPadding(m) \o "      " \o KifClock(ms, sum)

Gote(t) == IF t = 0 THEN "先手" ELSE "後手"
KifEndWord == [ resign |-> "投了        ", win |-> "入玉勝ち    ", draw |-> "持将棋      ",
                sennichite |-> "千日手      ", illegal_win |-> "反則勝ち    ", illegal_lose |-> "反則負け    " ]
\* the side named is the one to move, except that resigning makes the other side win
KifResult(r, n, t) ==
  "まで" \o Str(n) \o "手で" \o
  (CASE r = "resign" -> Gote(Opp(t)) \o "の勝ち"
     [] r = "win" -> Gote(t) \o "の入玉勝ち"
     [] r = "draw" -> "持将棋"
     [] r = "sennichite" -> "千日手"
     [] r = "illegal_win" -> Gote(t) \o "の反則勝ち"
     [] r = "illegal_lose" -> Gote(t) \o "の反則負け")
KifEnd(r, n, t, ms, sum) ==
  Pad(n + 1, 4) \o " " \o KifEndWord[r] \o "      " \o KifClock(ms, sum) \o "\n" \o KifResult(r, n, t) \o "\n"

HandJ(h) ==
  LET order == <<7, 6, 5, 4, 3, 2, 1>>
      One(k) == IF h[k] = 0 THEN <<>> ELSE << KPiece[SlotType[k]] \o (IF h[k] > 1 THEN KKan[h[k]] ELSE "") >>
  IN IF \A i \in 1..7 : h[i] = 0 THEN "なし"
     ELSE Join(One(7) \o One(6) \o One(5) \o One(4) \o One(3) \o One(2) \o One(1), "　")
BodCell(x) == IF x = 0 THEN " ・" ELSE (IF Col(x) = 0 THEN " " ELSE "v") \o KPiece[Typ(x)]
RECURSIVE BodRank(_, _, _)
BodRank(b, r, f) == IF f < 0 THEN "" ELSE BodCell(b[Ix(f, r)]) \o BodRank(b, r, f - 1)
RECURSIVE BodRows(_, _)
BodRows(b, r) == IF r > 8 THEN "" ELSE "|" \o BodRank(b, r, 8) \o "|" \o KKan[r + 1] \o "\n" \o BodRows(b, r + 1)
Bod(p) == "後手の持駒：" \o HandJ(p.h[2]) \o "\n  ９ ８ ７ ６ ５ ４ ３ ２ １\n+---------------------------+\n"
          \o BodRows(p.b, 0) \o "+---------------------------+\n先手の持駒：" \o HandJ(p.h[1])
          \o (IF p.t = 1 THEN "\n後手番" ELSE "")

Handicaps ==
  [ h \in {"平手", "香落ち", "右香落ち", "角落ち", "飛車落ち", "飛香落ち", "二枚落ち", "三枚落ち", "四枚落ち", "五枚落ち",
           "左五枚落ち", "六枚落ち", "八枚落ち", "十枚落ち"} |->
    LET A(f) == Ix(f - 1, 0)  R == Ix(7, 1)  B == Ix(1, 1) IN
    CASE h = "平手" -> {}
      [] h = "香落ち" -> {A(1)}
      [] h = "右香落ち" -> {A(9)}
      [] h = "角落ち" -> {B}
      [] h = "飛車落ち" -> {R}
      [] h = "飛香落ち" -> {R, A(1)}
      [] h = "二枚落ち" -> {R, B}
      [] h = "三枚落ち" -> {R, B, A(1)}
      [] h = "四枚落ち" -> {R, B, A(1), A(9)}
      [] h = "五枚落ち" -> {R, B, A(1), A(9), A(8)}
      [] h = "左五枚落ち" -> {R, B, A(1), A(9), A(2)}
      [] h = "六枚落ち" -> {R, B, A(1), A(9), A(2), A(8)}
      [] h = "八枚落ち" -> {R, B, A(1), A(9), A(2), A(8), A(3), A(7)}
      [] h = "十枚落ち" -> {R, B, A(1), A(9), A(2), A(8), A(3), A(7), A(4), A(6)} ]
HandicapPos(h) == [StartPos EXCEPT !.b = Tab(LAMBDA s : IF s \in Handicaps[h] THEN 0 ELSE StartPos.b[s], 81),
                                   !.t = IF h = "平手" THEN 0 ELSE 1]

KifHeader(e, p) ==
  "開始日時：" \o e.date \o "\n"
  \o (IF e.hcap = "none" THEN "手合割：平手" ELSE IF e.hcap \in {"board", "sfen"} THEN Bod(p) ELSE "手合割：" \o e.hcap) \o "\n"
  \o "先手：" \o e.names[1] \o "\n後手：" \o e.names[2] \o "\n手数----指手---------消費時間--\n"

\* the evaluation comment for the move just written by side c
KifInfoItem(it, c) ==
  CASE it[1] = "time" -> " 時間 " \o Zero2(it[2] \div 60000) \o ":" \o Zero2((it[2] % 60000) \div 1000) \o "." \o Str((it[2] % 1000) \div 100)
    [] it[1] = "depth" -> " 深さ " \o Str(it[2])
    [] it[1] = "nodes" -> " ノード数 " \o Str(it[2])
    [] it[1] = "cp" -> " 評価値 " \o Str(IF c = 0 THEN it[2] ELSE 0 - it[2])
    [] it[1] = "mate" -> (IF (it[2] > 0) = (c = 0) THEN " +詰" ELSE " -詰") \o Str(IF it[2] < 0 THEN 0 - it[2] ELSE it[2])
    [] OTHER -> ""
KifInfo(q, c) == "**対局" \o Cat(Map(LAMBDA it : KifInfoItem(it, c), q)) \o "\n"

(* --- KI2: moves named by target, piece and, where needed, a qualifier ------ *)
Persp(c, s) == IF c = 0 THEN s ELSE 82 - s              \* the square as the mover sees it
MotionOf(c, f, to) == LET a == Rank(Persp(c, f))  b == Rank(Persp(c, to)) IN IF a > b THEN "上" ELSE IF a < b THEN "引" ELSE "寄"
Side(c, f, to) == LET a == File(Persp(c, f))  b == File(Persp(c, to)) IN IF a > b THEN "左" ELSE IF a < b THEN "右" ELSE "直"
\* pieces of one kind that reach the target (leaving aside whether their own king is exposed by it)
Rivals(p, pt, to) ==
  LET k == KingSq(p.b, p.t)
      att == IF k = 0 THEN {} ELSE Attackers(p.b, k, Opp(p.t))
  IN { s \in Sq : /\ p.b[s] = Mk(p.t, pt)
                  /\ to \in Targets(p.b, s)
                  /\ (att = {} \/ pt = KING \/
                      Attackers([p.b EXCEPT ![to] = p.b[s], ![s] = 0], k, Opp(p.t)) \cap att = {}) }
Qualifier(p, m) ==
  LET c == p.t  to == MvTo(m)  from == MvFrom(m)  pt == MvPt(m)
      C == Rivals(p, pt, to)
      D(s) == MotionOf(c, s, to)
      S(s) == Side(c, s, to)
      NDir(d) == Cardinality({ s \in C : D(s) = d })
      others == C \ {from}
      d == D(from)
      rel == IF S(from) # "直" THEN S(from)
             ELSE IF pt \notin {HORSE, DRAGON} THEN (IF d = "寄" THEN "" ELSE "直")
             ELSE LET L == \E s \in others : S(s) = "左"  R == \E s \in others : S(s) = "右"
                  IN IF R /\ ~L THEN "左" ELSE IF L /\ ~R THEN "右" ELSE ""
      same == { s \in C : S(s) = rel }
      twins == { s \in same : D(s) = d }
      rest == same \ twins
      also == \/ rel = ""
              \/ Cardinality(twins) > 1
              \/ d = "上" /\ rel \in {"左", "右"} /\ rest # {}
              \/ \E s \in rest : NDir(D(s)) > 1
  IN IF Cardinality(C) < 2 THEN <<"", "">>
     ELSE IF NDir(d) = 1 THEN <<"", d>>
     ELSE IF rel # "" /\ same = {} THEN <<rel, "">>
     ELSE <<rel, IF also THEN d ELSE "">>
MayPromoteHere(p, m) == ~MvIsDrop(m) /\ Cardinality(MovesFromTo(p.b, MvFrom(m), MvTo(m))) = 2
\* a dropped piece is marked when a piece on the board could go there as well
DropMark(p, m) == \E s \in Sq : p.b[s] = Mk(p.t, MvDropType(m)) /\ MvTo(m) \in Targets(p.b, s)
                               /\ \E x \in MovesFromTo(p.b, s, MvTo(m)) : IsLegal(p, x)
K2Tail(p, m) == IF MvIsDrop(m) THEN (IF DropMark(p, m) THEN "打" ELSE "")
                ELSE Cat(Qualifier(p, m)) \o (IF MvPromo(m) THEN "成" ELSE IF MayPromoteHere(p, m) THEN "不成" ELSE "")
K2Mark(c) == IF c = 0 THEN "▲" ELSE "△"
Ki2(p, m, last) ==
  LET tail == K2Tail(p, m)
      same == last # 0 /\ MvTo(last) = MvTo(m)
      name == K2Piece[Moved(m)]
      fill == IF same /\ tail = "" /\ Moved(m) \notin {PROL, PRON, PROS} THEN "　" ELSE ""
  IN K2Mark(p.t) \o (IF same THEN "同" ELSE KSq(MvTo(m))) \o fill \o name \o tail
\* the same text with the square always named, used under diagrams
BodMove(p, m, last) ==
  K2Mark(p.t) \o KSq(MvTo(m)) \o (IF last # 0 /\ MvTo(last) = MvTo(m) THEN "同" ELSE "") \o K2Piece[Moved(m)] \o K2Tail(p, m)

Ki2Result(code, n, t) ==
  CASE code = "%TORYO" -> "まで" \o Str(n) \o "手で" \o Gote(Opp(t)) \o "の勝ち\n"
    [] code = "%JISHOGI" -> "まで" \o Str(n) \o "手で持将棋\n"
    [] code = "%KACHI" -> "まで" \o Str(n) \o "手で" \o Gote(t) \o "の入玉勝ち\n"
    [] code = "%SENNICHITE" -> "まで" \o Str(n) \o "手で千日手\n"
    [] code = "%+ILLEGAL_ACTION" -> "まで" \o Str(n) \o "手で後手の反則勝ち\n"
    [] code = "%-ILLEGAL_ACTION" -> "まで" \o Str(n) \o "手で先手の反則勝ち\n"
    [] code = "%ILLEGAL_MOVE" -> "まで" \o Str(n) \o "手で" \o Gote(t) \o "の反則負け\n"
    [] OTHER -> ""

(* --- PGN -------------------------------------------------------------------- *)
PgnSq(s) == <<"i", "h", "g", "f", "e", "d", "c", "b", "a">>[File(s) + 1] \o Str(9 - Rank(s))
San(m) == IF MvIsDrop(m) THEN UsiPt[MvDropType(m)] \o "@" \o PgnSq(MvTo(m))
          ELSE UsiPt[MvPt(m)] \o PgnSq(MvFrom(m)) \o PgnSq(MvTo(m)) \o (IF MvPromo(m) THEN "+" ELSE "")
PgnScore(r) == CASE r = "BLACK" -> "1-0" [] r = "WHITE" -> "0-1" [] r = "DRAW" -> "1/2-1/2" [] OTHER -> "*"
PgnTags(e) == Cat(<< "[Event \"", e.event, "\"]\n[Site \"", e.site, "\"]\n[Date \"", e.date, "\"]\n[Round \"", Str(e.round),
                     "\"]\n[White \"", e.names[1], "\"]\n[Black \"", e.names[2], "\"]\n[Result \"", PgnScore(e.res), "\"]\n\n" >>)
RECURSIVE Wrap(_, _)
Wrap(ws, line) ==
  IF ws = <<>> THEN line \o "\n\n"
  ELSE IF line = "" THEN Wrap(Tail(ws), Head(ws))
  ELSE IF Len(line) + 1 + Len(Head(ws)) <= 80 THEN Wrap(Tail(ws), line \o " " \o Head(ws))
  ELSE line \o "\n" \o Wrap(Tail(ws), Head(ws))
PgnMoves(mv, res) ==
  Wrap(Tab(LAMBDA i : (IF i % 2 = 1 THEN Str((i + 1) \div 2) \o ". " ELSE "") \o San(mv[i])
                      \o (IF i = Len(mv) THEN " " \o PgnScore(res) ELSE ""), Len(mv)), "")

(* --- diagrams ----------------------------------------------------------------- *)
\* <<file from the left, rank, piece>> of every piece drawn
SvgPieces(b) == { <<8 - File(s), Rank(s), b[s]>> : s \in { x \in Sq : b[x] # 0 } }
SvgMarks(m) == IF m = 0 THEN <<>>
               ELSE << <<8 - File(MvTo(m)), Rank(MvTo(m))>> >> \o
                    (IF MvIsDrop(m) THEN <<>> ELSE << <<8 - File(MvFrom(m)), Rank(MvFrom(m))>> >>)
\* the writing beside the board: pieces in hand from pawns to rooks, read upwards, the count before the piece
SvgHand(h, c) ==
  LET One(k) == LET n == h[k] IN
        IF n = 0 THEN <<>>
        ELSE (IF n >= 11 THEN <<KKan[n - 10], KKan[10]>> ELSE IF n >= 2 THEN <<KKan[n]>> ELSE <<>>) \o <<KPiece[SlotType[k]]>>
  IN One(1) \o One(2) \o One(3) \o One(4) \o One(5) \o One(6) \o One(7)
     \o <<"手", IF c = 0 THEN "先" ELSE "後", IF c = 0 THEN "☗" ELSE "☖">>
BodFull(p, S) ==
  IF Len(S) < 2 THEN Bod(p)
  ELSE LET prev == S[Len(S) - 1] IN
       Bod(p) \o "\n手数＝" \o Str(prev.ply) \o "　" \o BodMove(prev.p, Top(S).mv, prev.mv) \o "　まで"
=============================================================================
