------------------------------ MODULE RecordTrace ------------------------------
(***************************************************************************)
(* Trace validation of the record writers and readers.                     *)
(*   start          a position is set up                                   *)
(*   w              a writer call and the text it added to the record      *)
(*   show           texts and diagrams of the current position             *)
(*   rstart, item*, parsed     a record, item by item, and what the reader *)
(*                  made of the whole                                      *)
(***************************************************************************)
EXTENDS Records, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSess == Len(Trace)
VARIABLES s, l, st, rd, err
tvars == <<s, l, st, rd, err>>

EmptyPos == [b |-> Tab(LAMBDA x : 0, 81), h |-> EmptyHands, t |-> 0]
Rd0(f) == [fmt |-> f, p0 |-> StartPos, cur |-> StartPos, init |-> f # "csa", blk |-> EmptyPos,
           mv |-> <<>>, ti |-> <<>>, sc |-> <<>>, cm |-> <<>>, ver |-> "",
           names |-> IF f = "csa" THEN <<"", "">> ELSE <<"None", "None">>, rate |-> <<0, 0>>, info |-> <<>>, cmt |-> <<>>,
           date |-> "None", end |-> IF f = "kif" THEN "None" ELSE "", win |-> IF f = "csa" THEN "DRAW" ELSE "None", bad |-> FALSE, stop |-> FALSE]

TraceInit == s \in 1..NSess /\ l = 1 /\ st = <<>> /\ rd = <<>> /\ err = <<>>

Report(e, bad) == PrintT("MISMATCH " \o ToString(<<Trace[s].i, l, e.op, bad>>))
LastMv(q) == IF q = <<>> THEN 0 ELSE q[Len(q)]

(* --- reader: the text of an item, and the state after it -------------------- *)
CsaCells(q) == Cat(Map(CsaPiece, q))
OptTime(n) == IF n >= 0 THEN ",T" \o Str(n) ELSE ""
OptCmt(x) == IF x = "" THEN "" ELSE ",'" \o x
SumText(e) == "'summary:" \o e.reason \o ":" \o e.rest
CsaItemText(e, r) ==
  CASE e.k = "blank" -> ""
    [] e.k = "V" -> "V" \o e.s
    [] e.k = "N" -> "N" \o Sign(e.c) \o e.s
    [] e.k = "$" -> "$" \o e.key \o ":" \o e.v
    [] e.k = "'" -> "'" \o e.s
    [] e.k = "rate" -> (IF e.c = 0 THEN "'black_rate:" ELSE "'white_rate:") \o e.s \o ":" \o Str(e.v \div 2) \o (IF e.v % 2 = 1 THEN ".5" ELSE ".0")
    [] e.k = "score" -> "'** " \o (IF e.isnum = 1 THEN Str(e.n) ELSE "") \o e.rest
    [] e.k = "summary" -> SumText(e)
    [] e.k = "PI" -> "PI" \o Cat(Map(LAMBDA x : CsaSq(x + 1) \o CsaPt[Typ(StartPos.b[x + 1])], e.rem))
    [] e.k = "rank" -> "P" \o Str(e.r) \o CsaCells(e.cells)
    [] e.k = "P" -> "P" \o Sign(e.c) \o Cat(Map(LAMBDA x : (IF x[1] < 0 THEN "00" ELSE CsaSq(x[1] + 1)) \o CsaPt[x[2]], e.q))
    [] e.k = "turn" -> Sign(e.c)
    [] e.k = "move" -> CsaMoveText(r.cur.t, e.m) \o OptTime(e.time) \o OptCmt(e.cmt)
    [] e.k = "T" -> "T" \o Str(e.n)
    [] e.k = "end" -> e.code \o e.rest
    [] OTHER -> e.line
SetAt(q, x) == IF q = <<>> THEN q ELSE [q EXCEPT ![Len(q)] = x]
RECURSIVE PutAll(_, _, _)
PutAll(p, c, q) ==
  IF q = <<>> THEN p
  ELSE LET x == Head(q) IN
       PutAll(IF x[1] < 0 THEN [p EXCEPT !.h[c + 1][HandSlot[x[2]]] = @ + 1] ELSE [p EXCEPT !.b[x[1] + 1] = Mk(c, x[2])], c, Tail(q))
CsaItem(e, r) ==
  CASE e.k \in {"blank"} -> r
    [] e.k = "V" -> [r EXCEPT !.ver = "V" \o e.s]
    [] e.k = "N" -> [r EXCEPT !.names[e.c + 1] = e.s]
    [] e.k = "$" -> [r EXCEPT !.info = Append(@, <<e.key, e.v>>)]
    [] e.k = "'" -> [r EXCEPT !.cmt = Append(@, "'" \o e.s \o "\n")]
    [] e.k = "rate" -> [r EXCEPT !.rate[e.c + 1] = e.v]
    [] e.k = "score" -> IF r.mv = <<>> THEN [r EXCEPT !.cmt = Append(@, CsaItemText(e, r) \o "\n")]
                        ELSE [r EXCEPT !.sc = IF e.isnum = 1 THEN SetAt(@, e.n) ELSE @,
                                       !.cm = SetAt(@, (IF e.isnum = 1 THEN Str(e.n) ELSE "") \o e.rest)]
    [] e.k = "summary" -> LET r2 == [r EXCEPT !.cmt = Append(@, SumText(e) \o "\n")] IN
                          IF e.reason = "illegal move" THEN [r2 EXCEPT !.end = "%ILLEGAL_MOVE", !.win = WinName(r.cur.t)]
                          ELSE IF e.reason = "max_moves" THEN [r2 EXCEPT !.end = "%JISHOGI"]
                          ELSE IF e.reason = "abnormal" THEN [r2 EXCEPT !.end = "%ERROR"]
                          ELSE r2
    [] e.k = "PI" -> [r EXCEPT !.blk.b = Tab(LAMBDA x : IF Contains(e.rem, x - 1) THEN 0 ELSE StartPos.b[x], 81)]
    [] e.k = "rank" -> [r EXCEPT !.blk.b = Tab(LAMBDA x : IF Rank(x) = e.r - 1 THEN e.cells[9 - File(x)] ELSE r.blk.b[x], 81)]
    [] e.k = "P" -> [r EXCEPT !.blk = PutAll(@, e.c, e.q)]
    [] e.k = "turn" -> IF r.init THEN r ELSE LET p == [r.blk EXCEPT !.t = e.c] IN [r EXCEPT !.init = TRUE, !.p0 = p, !.cur = p]
    [] e.k = "move" -> [r EXCEPT !.mv = Append(@, e.m), !.cur = Play(@, e.m), !.ti = Append(@, IF e.time >= 0 THEN e.time ELSE 0),
                                 !.sc = Append(@, 0), !.cm = Append(@, e.cmt)]
    [] e.k = "T" -> [r EXCEPT !.ti = IF r.end = "" THEN SetAt(@, e.n) ELSE Append(@, e.n)]
    [] e.k = "end" -> [r EXCEPT !.end = e.code, !.win = IF Loser(e.code, r.cur.t) >= 0 THEN WinName(Loser(e.code, r.cur.t)) ELSE @]
    [] e.k = "badmove" -> [r EXCEPT !.bad = TRUE]
    [] e.k = "badline" -> [r EXCEPT !.bad = TRUE]


\* --- KIF and KI2 -------------------------------------------------------------
ClockPart(q) == Str(q[1]) \o Cat(Map(LAMBDA n : ":" \o Zero2(n), Tail(q)))
Clock(e) == IF e.own = <<>> THEN "" ELSE "(" \o e.lead \o ClockPart(e.own) \o "/" \o ClockPart(e.tot) \o ")"
Secs(q) == IF Len(q) = 2 THEN q[1] * 60 + q[2] ELSE q[1] * 3600 + q[2] * 60 + q[3]
JName(m, alt) == IF alt = 1 THEN KPiece2[Moved(m)] ELSE KPiece[Moved(m)]
JTarget(m, same) == IF same > 0 THEN (IF same = 1 THEN "同　" ELSE "同") ELSE KSq(MvTo(m))
ResultBody(e) == IF e.side = "" THEN e.what ELSE e.side \o "手の" \o e.what
ResultEnd(e) ==       \* <<winner, code>>
  IF e.side = "" THEN (CASE e.what = "千日手" -> <<"DRAW", "%SENNICHITE">> [] e.what = "持将棋" -> <<"DRAW", "%JISHOGI">> [] e.what = "中断" -> <<"None", "%CHUDAN">>)
  ELSE LET c == IF e.side \in {"先", "下"} THEN 0 ELSE 1 IN
       CASE e.what = "勝ち" -> <<WinName(Opp(c)), "%TORYO">>
         [] e.what = "入玉勝ち" -> <<WinName(Opp(c)), "%KACHI">>
         [] e.what = "反則勝ち" -> <<WinName(Opp(c)), IF c = 0 THEN "%-ILLEGAL_ACTION" ELSE "%+ILLEGAL_ACTION">>
         [] e.what = "反則負け" -> <<WinName(c), "%ILLEGAL_MOVE">>
\* one KI2 move: x.q is <<>> for the standard qualifier, or one qualifier that is true of this move alone
K2Word(p, x, last) ==
  LET tail == IF x.q = <<>> \/ MvIsDrop(x.m) THEN K2Tail(p, x.m)
              ELSE Cat(x.q) \o (IF MvPromo(x.m) THEN "成" ELSE IF MayPromoteHere(p, x.m) THEN "不成" ELSE "")
      same == last # 0 /\ MvTo(last) = MvTo(x.m) /\ x.same > 0
  IN K2Mark(p.t) \o (IF same THEN JTarget(x.m, x.same) ELSE KSq(MvTo(x.m))) \o JName(x.m, x.alt) \o tail
K2Unique(p, x) ==
  x.q = <<>> \/ MvIsDrop(x.m) \/
  LET to == MvTo(x.m)  c == p.t
      Has(f) == \A i \in 1..2 : x.q[i] = "" \/ x.q[i] = MotionOf(c, f, to) \/ x.q[i] = Side(c, f, to)
  IN { f \in Sq : p.b[f] = Mk(c, MvPt(x.m)) /\ to \in Targets(p.b, f) /\ Has(f)
                  /\ \E y \in MovesFromTo(p.b, f, to) : IsLegal(p, y) } = {MvFrom(x.m)}
RECURSIVE K2Words(_, _, _)
K2Words(p, q, last) == IF q = <<>> THEN ""
                       ELSE K2Word(p, Head(q), last) \o Head(q).sp \o K2Words(Play(p, Head(q).m), Tail(q), Head(q).m)
RECURSIVE K2Legal(_, _)
K2Legal(p, q) == q = <<>> \/ (IsLegal(p, Head(q).m) /\ K2Unique(p, Head(q)) /\ K2Legal(Play(p, Head(q).m), Tail(q)))
JItemText(e, r) ==
  CASE e.k = "blank" -> ""
    [] e.k = "comment" -> (IF e.stars = 2 THEN "**" ELSE "*") \o e.s
    [] e.k = "kv" -> e.key \o "：" \o e.v \o e.trail
    [] e.k = "name" -> e.key \o "：" \o e.v \o e.trail
    [] e.k = "hcap" -> "手合割：" \o e.v \o e.trail
    [] e.k = "date" -> "開始日時：" \o e.v
    [] e.k = "move" -> Pad(e.n, 4) \o " " \o JTarget(e.m, e.same) \o JName(e.m, e.alt)
                       \o (IF MvIsDrop(e.m) /\ e.zero = 1 THEN "(00)" ELSE KTail(e.m)) \o e.sp \o Clock(e) \o e.rest
    [] e.k = "endmove" -> Pad(e.n, 4) \o " " \o e.word \o e.sp \o Clock(e)
    [] e.k = "moves" -> K2Words(r.cur, e.q, LastMv(r.mv))
    [] e.k = "result" -> e.pre \o Str(e.n) \o "手で" \o ResultBody(e)
    [] OTHER -> e.line                     \* text that says nothing: headings, diagrams, hands
RECURSIVE Nones(_)
Nones(n) == IF n <= 0 THEN <<>> ELSE Append(Nones(n - 1), "None")
AddComment(r, x) ==
  IF r.mv = <<>> THEN [r EXCEPT !.cmt = Append(@, IF x.stars = 2 THEN "*" \o x.s ELSE x.s)]
  ELSE LET q == r.cm \o Nones(Len(r.mv) - Len(r.cm) - 1) IN
       [r EXCEPT !.cm = IF Len(q) = Len(r.mv) THEN SetAt(q, q[Len(q)] \o "\n" \o x.s) ELSE Append(q, x.s)]
RECURSIVE PlayAll(_, _)
PlayAll(p, q) == IF q = <<>> THEN p ELSE PlayAll(Play(p, Head(q).m), Tail(q))
JItem(e, r) ==
  CASE r.stop -> r
    [] e.k = "comment" -> AddComment(r, e)
    [] e.k = "kv" -> [r EXCEPT !.info = Append(@, <<e.key, e.v>>)]
    [] e.k = "name" -> [r EXCEPT !.names[IF e.key \in {"先手", "下手"} THEN 1 ELSE 2] = e.v]
    [] e.k = "hcap" -> [r EXCEPT !.p0 = HandicapPos(e.v), !.cur = HandicapPos(e.v)]
    [] e.k = "date" -> LET d == [r EXCEPT !.date = e.means] IN
                       IF r.fmt = "kif" THEN [d EXCEPT !.info = Append(@, <<"開始日時", e.v>>)] ELSE d
    [] e.k = "move" -> [r EXCEPT !.mv = Append(@, e.m), !.cur = Play(@, e.m), !.ti = IF e.own = <<>> THEN @ ELSE Append(@, Secs(e.own))]
    [] e.k = "endmove" -> [r EXCEPT !.ti = IF e.own = <<>> THEN @ ELSE Append(@, Secs(e.own))]
    [] e.k = "moves" -> [r EXCEPT !.mv = @ \o Map(LAMBDA x : x.m, e.q), !.cur = PlayAll(@, e.q)]
    [] e.k = "result" -> [r EXCEPT !.win = ResultEnd(e)[1], !.end = ResultEnd(e)[2], !.stop = TRUE]
    [] OTHER -> r

ItemText(e, r) == IF r.fmt = "csa" THEN CsaItemText(e, r) ELSE JItemText(e, r)
ItemNext(e, r) == IF r.fmt = "csa" THEN CsaItem(e, r) ELSE JItem(e, r)
\* is the item what its line says?  (never fails unless the recording is inconsistent)
ItemBad(e, r) ==
  (IF e.line # ItemText(e, r) THEN {"driver: line is not the item's text"} ELSE {})
  \cup (IF r.stop THEN {}
        ELSE IF e.k = "move" /\ ~IsLegal(r.cur, e.m) THEN {"driver: illegal move in a record"}
        ELSE IF e.k = "moves" /\ ~K2Legal(r.cur, e.q) THEN {"driver: illegal or ambiguous move in a record"}
        ELSE IF e.k = "badmove" /\ \E m \in LegalMoves(r.cur) : e.line = CsaMoveText(r.cur.t, m) THEN {"driver: legal move"}
        ELSE {})

Header(r) == IF r.fmt = "csa" THEN Cat(r.cmt) ELSE Join(r.cmt, "\n")
FinalComments(r) == IF r.fmt = "ki2" THEN r.cm \o Nones(Len(r.mv) - Len(r.cm)) ELSE r.cm
ParsedBad(e, r) ==
  IF r.bad THEN (IF e.exc = "" THEN {"malformed record accepted"} ELSE {})
  ELSE IF e.exc # "" THEN {"well-formed record rejected: " \o e.exc}
  ELSE LET v == SfenVerdict(e.sfen) IN
       (IF v.v = "ok" /\ v.p = r.p0 /\ v.ply = 1 THEN {} ELSE {"sfen"})
       \cup (IF e.moves = r.mv THEN {} ELSE {"moves"})
       \cup (IF r.fmt = "ki2" \/ e.times = r.ti THEN {} ELSE {"times"})
       \cup (IF r.fmt # "csa" \/ (e.scores = r.sc /\ e.ver = r.ver /\ e.rate = r.rate) THEN {} ELSE {"scores, version or ratings"})
       \cup (IF e.comments = FinalComments(r) THEN {} ELSE {"comments"})
       \cup (IF e.comment = Header(r) THEN {} ELSE {"comment"})
       \cup (IF e.names = r.names THEN {} ELSE {"names"})
       \cup (IF e.info = r.info THEN {} ELSE {"var_info"})
       \cup (IF r.fmt = "csa" \/ e.date = r.date THEN {} ELSE {"starttime"})
       \cup (IF e.end = r.end THEN {} ELSE {"endgame"})
       \cup (IF e.win = r.win THEN {} ELSE {"win"})

(* --- writers -------------------------------------------------------------------- *)
Nth(S) == Len(S) - 1
WText(e, S) ==
  LET p == Top(S).p  last == Top(S).mv IN
  CASE e.call = "csa_info" -> CsaInfo(e, p)
    [] e.call = "csa_move" -> CsaWMove(e, p.t)
    [] e.call = "csa_end" -> CsaWEnd(e)
    [] e.call = "kif_header" -> KifHeader(e, p)
    [] e.call = "kif_move" -> KifLine(Nth(S) + 1, e.m, last, e.ms, e.sum) \o "\n"
    [] e.call = "kif_info" -> KifInfo(e.q, Opp(p.t))
    [] e.call = "kif_end" -> KifEnd(e.reason, Nth(S), p.t, e.ms, e.sum)
    [] e.call = "ki2_header" -> "開始日時：" \o e.date \o "\n手合割：平手\n先手：" \o e.names[1] \o "\n後手：" \o e.names[2] \o "\n\n"
    [] e.call = "ki2_move" -> Ki2(p, e.m, last) \o "\n" \o (IF e.cmt = "" THEN "" ELSE "**" \o e.cmt \o "\n")
    [] e.call = "ki2_end" -> Ki2Result(e.code, Nth(S), p.t)
    [] e.call = "pgn_tags" -> PgnTags(e)
    [] e.call = "pgn_moves" -> PgnMoves(History(S), e.res)
IsMoveCall(e) == e.call \in {"csa_move", "kif_move", "ki2_move", "play"}
WBad(e, S) ==
  IF IsMoveCall(e) /\ ~IsLegal(Top(S).p, e.m) THEN {"driver: illegal move"}
  ELSE IF e.call = "play" \/ e.out = WText(e, S) THEN {} ELSE {e.call}

ShowBad(e, S) ==
  LET p == Top(S).p  last == Top(S).mv IN
  (IF "bod" \in DOMAIN e /\ e.bod # Bod(p) THEN {"bod"} ELSE {})
  \cup (IF "bodfull" \in DOMAIN e /\ e.bodfull # BodFull(p, S) THEN {"to_bod"} ELSE {})
  \cup (IF "repr" \in DOMAIN e /\ e.repr # "'  9  8  7  6  5  4  3  2  1\n" \o CsaPos(p) THEN {"repr"} ELSE {})
  \cup (IF "svg" \in DOMAIN e /\ (Len(e.svg) # Cardinality(SvgPieces(p.b)) \/ SetOf(e.svg) # SvgPieces(p.b)) THEN {"svg pieces"} ELSE {})
  \cup (IF "marks" \in DOMAIN e /\ e.marks # SvgMarks(e.marked) THEN {"svg marks"} ELSE {})
  \cup (IF "svgh" \in DOMAIN e /\ e.svgh # << SvgHand(p.h[1], 0), SvgHand(p.h[2], 1) >> THEN {"svg hands"} ELSE {})
  \cup (IF "ki2" \in DOMAIN e /\ \E i \in 1..Len(e.ki2) : e.ki2[i].s # Ki2(p, e.ki2[i].m, last) THEN {"ki2 text"} ELSE {})
  \cup (IF "ki2" \in DOMAIN e /\ Cardinality({ e.ki2[i].s : i \in 1..Len(e.ki2) }) # Len(e.ki2) THEN {"two moves with one text"} ELSE {})
  \cup (IF "ki2" \in DOMAIN e /\ \E i \in 1..Len(e.ki2) : e.ki2[i].back # <<e.ki2[i].m>> THEN {"ki2 text read back"} ELSE {})
  \cup (IF "kif" \in DOMAIN e /\ \E i \in 1..Len(e.kif) : e.kif[i].s # KifMove(e.kif[i].m, last) THEN {"kif text"} ELSE {})
  \cup (IF "bodm" \in DOMAIN e /\ \E i \in 1..Len(e.bodm) : e.bodm[i].s # BodMove(p, e.bodm[i].m, last) THEN {"bod move"} ELSE {})
  \cup (IF "san" \in DOMAIN e /\ \E i \in 1..Len(e.san) : e.san[i].s # San(e.san[i].m) THEN {"san"} ELSE {})

Done(st2, rd2, e, bad) ==
  /\ st' = st2 /\ rd' = rd2
  /\ err' = IF bad = {} THEN <<>> ELSE IF Report(e, bad) THEN <<l, e.op, bad>> ELSE <<>>

TraceNext ==
  /\ err = <<>>
  /\ l <= Len(Trace[s].ev)
  /\ l' = l + 1
  /\ s' = s
  /\ LET e == Trace[s].ev[l] IN
     CASE e.op = "start"  -> Done(NewStack(ArgPos(e), e.aply), rd, e, {})
       [] e.op = "w"      -> Done(IF IsMoveCall(e) THEN PushMove(st, e.m) ELSE st, rd, e, WBad(e, st))
       [] e.op = "show"   -> Done(st, rd, e, ShowBad(e, st))
       [] e.op = "rstart" -> Done(st, Rd0(e.fmt), e, {})
       [] e.op = "item"   -> LET b == ItemBad(e, rd) IN Done(st, IF b = {} THEN ItemNext(e, rd) ELSE rd, e, b)
       [] e.op = "parsed" -> Done(st, rd, e, ParsedBad(e, rd))
       [] OTHER           -> Done(st, rd, e, {e.op})

TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == err = <<>>
View == <<s, l, err>>
===============================================================================
