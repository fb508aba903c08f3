--------------------------------- MODULE Codec ---------------------------------
(***************************************************************************)
(* Binary forms: packed positions (Apery's Huffman coded position and      *)
(* YaneuraOu's packed SFEN, 256 bits each), 16-bit moves, opening-book     *)
(* keys, dlshogi move labels.                                              *)
(***************************************************************************)
EXTENDS Text, Bitwise, Json

(* --- packed positions ------------------------------------------------- *)
\* prefix of the code of a piece type on the board, first bit first
HcpPrefix == << <<1,0>>, <<1,1,0,0>>, <<1,1,1,0>>, <<1,1,0,1>>, <<1,1,1,1,1,0>>,
                <<1,1,1,1,1,1>>, <<1,1,1,1,0>> >>
PsfPrefix == << <<1,0>>, <<1,1,0,0>>, <<1,1,0,1>>, <<1,1,1,0>>, <<1,1,1,1,1,0>>,
                <<1,1,1,1,1,1>>, <<1,1,1,1,0>> >>
\* then, except for gold (colour only): colour and promotion in this order in
\* HCP, promotion and colour in packed SFEN
HcpCode(p) == LET b == Demote(Typ(p))  pr == IF Typ(p) > 8 THEN 1 ELSE 0 IN
  IF p = 0 THEN <<0>>
  ELSE IF b = GOLD THEN HcpPrefix[b] \o <<Col(p)>>
  ELSE HcpPrefix[b] \o <<Col(p), pr>>
PsfCode(p) == LET b == Demote(Typ(p))  pr == IF Typ(p) > 8 THEN 1 ELSE 0 IN
  IF p = 0 THEN <<0>>
  ELSE IF b = GOLD THEN PsfPrefix[b] \o <<Col(p)>>
  ELSE PsfPrefix[b] \o <<pr, Col(p)>>
\* a piece in hand: one bit less than on the board (slots P L N S G B R); last bit is the colour
HcpHandPrefix == << <<0,0>>, <<1,0,0,0>>, <<1,1,0,0>>, <<1,0,1,0>>, <<1,1,1,0>>, <<1,1,1,1,1,0>>, <<1,1,1,1,1,1>> >>
PsfHandPrefix == << <<0,0>>, <<1,0,0,0>>, <<1,0,1,0>>, <<1,1,0,0>>, <<1,1,1,0>>, <<1,1,1,1,0,0>>, <<1,1,1,1,1,0>> >>
\* a piece that is in neither hand nor on the board
HcpBox == << <<0,1,0>>, <<1,0,0,1,0>>, <<1,1,0,1,0>>, <<1,0,1,1,0>>, <<1,0,1,1,1>>, <<1,1,1,1,0,0,0>>, <<1,1,1,1,0,1,0>> >>
PsfBox == << <<0,1,0>>, <<1,0,0,1,0>>, <<1,0,1,1,0>>, <<1,1,0,1,0>>, <<1,1,0,1,1>>, <<1,1,1,1,0,1,0>>, <<1,1,1,1,1,1,0>> >>
FullSet == <<18, 4, 4, 4, 4, 2, 2>>

HcpPcF(i) == IF i - 1 \in Pieces THEN HcpCode(i - 1) ELSE IF i = 1 THEN <<0>> ELSE <<>>
PsfPcF(i) == IF i - 1 \in Pieces THEN PsfCode(i - 1) ELSE IF i = 1 THEN <<0>> ELSE <<>>
\* kings carry no board code
HcpTab == LET G(i) == IF i - 1 \in {8, 24, 15, 16} THEN <<>> ELSE HcpPcF(i) IN Tab(G, 31)
PsfTab == LET G(i) == IF i - 1 \in {8, 24, 15, 16} THEN <<>> ELSE PsfPcF(i) IN Tab(G, 31)

RECURSIVE BitsOf(_, _)
BitsOf(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o BitsOf(v \div 2, n - 1)
RECURSIVE Times(_, _)
Times(n, q) == IF n <= 0 THEN <<>> ELSE q \o Times(n - 1, q)
RECURSIVE BoardBits(_, _, _)
BoardBits(b, tab, s) == IF s > 81 THEN <<>> ELSE tab[b[s] + 1] \o BoardBits(b, tab, s + 1)
RECURSIVE HandBits(_, _, _, _)
HandBits(h, c, pre, i) == IF i > 7 THEN <<>> ELSE Times(h[i], pre[i] \o <<c>>) \o HandBits(h, c, pre, i + 1)
OnBoardOf(b, i) == Cardinality({ s \in Sq : b[s] # 0 /\ Typ(b[s]) # KING /\ HandSlot[Demote(Typ(b[s]))] = i })
RECURSIVE BoxBits(_, _, _)
BoxBits(p, box, i) ==
  IF i > 7 THEN <<>>
  ELSE Times(FullSet[i] - OnBoardOf(p.b, i) - p.h[1][i] - p.h[2][i], box[i]) \o BoxBits(p, box, i + 1)
PackBits(p, tab, pre, box) ==
  <<p.t>> \o BitsOf(KingSq(p.b, 0) - 1, 7) \o BitsOf(KingSq(p.b, 1) - 1, 7)
  \o BoardBits(p.b, tab, 1) \o HandBits(p.h[1], 0, pre, 1) \o HandBits(p.h[2], 1, pre, 1)
  \o BoxBits(p, box, 1)
ByteAt(q, i) == LET B(k) == IF 8 * (i - 1) + k <= Len(q) THEN q[8 * (i - 1) + k] ELSE 0 IN
  B(1) + 2*B(2) + 4*B(3) + 8*B(4) + 16*B(5) + 32*B(6) + 64*B(7) + 128*B(8)
Bytes32(q) == LET F(i) == ByteAt(q, i) IN Tab(F, 32)
Packable(p) == KingSq(p.b, 0) # 0 /\ KingSq(p.b, 1) # 0
Hcp(p) == Bytes32(PackBits(p, HcpTab, HcpHandPrefix, HcpBox))
Psfen(p) == Bytes32(PackBits(p, PsfTab, PsfHandPrefix, PsfBox))
\* every piece is coded exactly once, so the code always has 256 bits
PackedLen(p) == Len(PackBits(p, HcpTab, HcpHandPrefix, HcpBox))

(* --- opening-book keys ------------------------------------------------- *)
BookTab == JsonDeserialize("bookkeys.json")
Xor4(x, y) == << x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4] >>
RECURSIVE XorBoard(_, _)
XorBoard(b, s) == IF s > 81 THEN <<0, 0, 0, 0>>
                  ELSE IF b[s] = 0 THEN XorBoard(b, s + 1)
                  ELSE Xor4(BookTab.piece[b[s] + 1][s], XorBoard(b, s + 1))
RECURSIVE XorHand(_, _)
XorHand(h, i) == IF i > 7 THEN <<0, 0, 0, 0>> ELSE Xor4(BookTab.hand[i][h[i] + 1], XorHand(h, i + 1))
\* pieces, hand of the side to move, side to move
BookKey(p) == LET k == Xor4(XorBoard(p.b, 1), XorHand(p.h[p.t + 1], 1))
              IN IF p.t = 1 THEN Xor4(k, BookTab.turn) ELSE k

(* --- moves -------------------------------------------------------------- *)
\* the 16-bit YaneuraOu move: bit 14 drop (from = piece type), bit 15 promotion
Psv(m) == (m % 128) + 128 * (IF MvIsDrop(m) THEN MvDropType(m) ELSE MvFromRaw(m))
          + (IF MvIsDrop(m) THEN 16384 ELSE 0) + (IF MvPromo(m) THEN 32768 ELSE 0)
\* the same move on the board turned by 180 degrees
RotMove(m) == IF MvIsDrop(m) THEN m - (MvTo(m) - 1) + (81 - MvTo(m))
              ELSE m - (MvTo(m) - 1) + (81 - MvTo(m)) - 128 * (MvFrom(m) - 1) + 128 * (81 - MvFrom(m))
\* dlshogi direction of a Black move: 0 up, 1 up-left, 2 up-right, 3 left, 4 right, 5 down,
\* 6 down-left, 7 down-right, 8/9 knight left/right ("left" is towards file 9)
Dir(f, t) ==
  LET dx == File(t) - File(f)      \* > 0: to the left
      dy == Rank(t) - Rank(f)
  IN IF dy = -2 /\ dx = 1 THEN 8
     ELSE IF dy = -2 /\ dx = -1 THEN 9
     ELSE IF dy < 0 THEN (IF dx = 0 THEN 0 ELSE IF dx > 0 THEN 1 ELSE 2)
     ELSE IF dy = 0 THEN (IF dx > 0 THEN 3 ELSE 4)
     ELSE (IF dx = 0 THEN 5 ELSE IF dx > 0 THEN 6 ELSE 7)
Label(m, c) ==
  LET n == IF c = 0 THEN m ELSE RotMove(m) IN
  IF MvIsDrop(n) THEN 81 * (20 + MvDropType(n) - 1) + MvTo(n) - 1
  ELSE 81 * (Dir(MvFrom(n), MvTo(n)) + (IF MvPromo(n) THEN 10 ELSE 0)) + MvTo(n) - 1
\* everything the library says about a move m of position p
MoveAttr(m) ==
  << m, MvTo(m) - 1, MvFromRaw(m), MvCap(m), IF MvPromo(m) THEN 1 ELSE 0, IF MvIsDrop(m) THEN 1 ELSE 0,
     MvPt(m), IF MvIsDrop(m) THEN HandSlot[MvDropType(m)] - 1 ELSE -1,
     Mv16(m), Psv(m), Mv16(m), RotMove(m), Label(m, 0), Label(m, 1), m, m, m >>

(* --- rotation ----------------------------------------------------------- *)
RotPiece(p) == IF p = 0 THEN 0 ELSE IF p > 16 THEN p - 16 ELSE p + 16
RotPos(p) == LET F(s) == RotPiece(p.b[82 - s]) IN
  [b |-> Tab(F, 81), h |-> <<p.h[2], p.h[1]>>, t |-> Opp(p.t)]
===============================================================================
