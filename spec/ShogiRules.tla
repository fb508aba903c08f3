----------------------------- MODULE ShogiRules -----------------------------
(***************************************************************************)
(* The rules of shogi, as pure operators over positions.                   *)
(*                                                                         *)
(* A position is a record  [b, h, t]:                                      *)
(*   b  - tuple of 81 pieces; square number s (0..80, s = 9*file + rank,   *)
(*        file 0 = "1", rank 0 = "a") is stored at b[s+1].                 *)
(*   h  - <<black hand, white hand>>, each a 7-tuple counting              *)
(*        P L N S G B R.                                                   *)
(*   t  - side to move, 0 = Black (sente), 1 = White (gote).               *)
(* Pieces: 0 empty; 1..14 = P L N S B R G K +P +L +N +S +B +R for Black,   *)
(* the same + 16 for White.                                                *)
(* A move is one integer in the library's public encoding:                 *)
(*   bits 0-6 to, 7-13 from (81 + piece type - 1 for a drop), 14 promote,  *)
(*   16-19 type of the moving piece, 20-23 type of the captured piece.     *)
(*                                                                         *)
(* The operators are written in terms of 1-based square indexes 1..81.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sq == 1..81
File(s) == (s - 1) \div 9
Rank(s) == (s - 1) % 9
OnBoard(f, r) == f >= 0 /\ f <= 8 /\ r >= 0 /\ r <= 8
Ix(f, r) == 9 * f + r + 1

Col(p) == IF p > 16 THEN 1 ELSE 0
Typ(p) == IF p > 16 THEN p - 16 ELSE p
Mk(c, pt) == pt + 16 * c
Opp(c) == 1 - c

\* piece types
PAWN == 1  LANCE == 2  KNIGHT == 3  SILVER == 4  BISHOP == 5  ROOK == 6
GOLD == 7  KING == 8  PROP == 9  PROL == 10  PRON == 11  PROS == 12
HORSE == 13  DRAGON == 14
PieceTypes == 1..14
Pieces == 1..14 \cup 17..30

Demote(pt) == IF pt > 8 THEN pt - 8 ELSE pt
CanPromote(pt) == pt \in 1..6
\* slot of a piece type in a hand  (P L N S G B R)
HandSlot == <<1, 2, 3, 4, 6, 7, 5>>
\* piece type of a hand slot
SlotType == <<1, 2, 3, 4, 7, 5, 6>>

(***************************************************************************)
(* Geometry tables (constant level: TLC evaluates each of them once).      *)
(* Directions 1..8 as seen by Black:  1 N, 2 S, 3 E(file-1), 4 W(file+1),  *)
(* 5 NE, 6 NW, 7 SE, 8 SW.                                                 *)
(***************************************************************************)
DF == <<0, 0, -1, 1, -1, 1, -1, 1>>
DR == <<-1, 1, 0, 0, -1, -1, 1, 1>>
OppDir == <<2, 1, 4, 3, 8, 7, 6, 5>>
\* the direction a White piece moves in where a Black one moves in d
FlipDir == OppDir

RECURSIVE RayFrom(_, _, _)
RayFrom(f, r, d) ==
  IF OnBoard(f + DF[d], r + DR[d])
  THEN <<Ix(f + DF[d], r + DR[d])>> \o RayFrom(f + DF[d], r + DR[d], d)
  ELSE <<>>

\* Tab(F, n) = <<F(1), ..., F(n)>> as an explicit tuple: TLC then evaluates a
\* table once instead of at every application.
RECURSIVE Tab(_, _)
Tab(F(_), n) == IF n = 0 THEN <<>> ELSE Append(Tab(F, n - 1), F(n))

\* Ray[s][d] : the squares from s outwards in direction d
RaysOf(s) == LET F(d) == RayFrom(File(s), Rank(s), d) IN Tab(F, 8)
Ray == Tab(RaysOf, 81)

\* squares a knight of colour c - 1 jumps to from s
KnightJump(c, s) ==
   LET r == Rank(s) + (IF c = 1 THEN -2 ELSE 2)
   IN { Ix(f, r) : f \in { g \in {File(s) - 1, File(s) + 1} : OnBoard(g, r) } }
KnightRow(c) == LET F(s) == KnightJump(c, s) IN Tab(F, 81)
KnightTo == Tab(KnightRow, 2)

\* directions in which a Black piece type makes a single step / slides
StepDirs == << {1}, {}, {}, {1, 5, 6, 7, 8}, {}, {},
               {1, 2, 3, 4, 5, 6}, 1..8,
               {1, 2, 3, 4, 5, 6}, {1, 2, 3, 4, 5, 6}, {1, 2, 3, 4, 5, 6},
               {1, 2, 3, 4, 5, 6}, {1, 2, 3, 4}, {5, 6, 7, 8} >>
SlideDirs == << {}, {1}, {}, {}, {5, 6, 7, 8}, {1, 2, 3, 4},
                {}, {}, {}, {}, {}, {}, {5, 6, 7, 8}, {1, 2, 3, 4} >>
ColDirs(c, ds) == IF c = 0 THEN ds ELSE { FlipDir[d] : d \in ds }

\* StepTo[p][s]: squares reached by a step (or knight jump) of piece p on s
StepFrom(p, s) ==
   IF Typ(p) = KNIGHT THEN KnightTo[Col(p) + 1][s]
   ELSE { Ray[s][d][1] : d \in { e \in ColDirs(Col(p), StepDirs[Typ(p)]) : Ray[s][e] # <<>> } }
StepRow(p) == LET F(s) == StepFrom(p, s) IN IF p \notin Pieces THEN <<>> ELSE Tab(F, 81)
StepTo == Tab(StepRow, 30)
SlideFor(p) == IF p \notin Pieces THEN {} ELSE ColDirs(Col(p), SlideDirs[Typ(p)])
SlideOf == Tab(SlideFor, 30)

\* From the point of view of an attacked square looking outwards in d:
\* Near[c][d] - pieces of colour c - 1 that attack it from the adjacent square,
\* Far[c][d]  - those that attack it from further away on a clear line.
NearRow(c) == LET F(d) == { Mk(c - 1, pt) : pt \in { q \in PieceTypes :
           OppDir[d] \in ColDirs(c - 1, StepDirs[q]) \cup ColDirs(c - 1, SlideDirs[q]) } } IN Tab(F, 8)
Near == Tab(NearRow, 2)
FarRow(c) == LET F(d) == { Mk(c - 1, pt) : pt \in { q \in PieceTypes :
           OppDir[d] \in ColDirs(c - 1, SlideDirs[q]) } } IN Tab(F, 8)
Far == Tab(FarRow, 2)
\* squares on a line with s
AlignedWith(s) == { x \in Sq : \E d \in 1..8 : \E i \in 1..Len(Ray[s][d]) : Ray[s][d][i] = x }
Aligned == Tab(AlignedWith, 81)

\* promotion zone, and squares where a piece could never move again
Zone == << { s \in Sq : Rank(s) <= 2 }, { s \in Sq : Rank(s) >= 6 } >>
DeadEndOf(p) ==
   IF Typ(p) \in {PAWN, LANCE} THEN { s \in Sq : Rank(s) = (IF Col(p) = 0 THEN 0 ELSE 8) }
   ELSE IF Typ(p) = KNIGHT THEN { s \in Sq : IF Col(p) = 0 THEN Rank(s) <= 1 ELSE Rank(s) >= 7 }
   ELSE {}
DeadEnd == Tab(DeadEndOf, 30)

(***************************************************************************)
(* Attacks                                                                 *)
(***************************************************************************)
\* the first occupied square of ray from index i on, or 0
RECURSIVE FirstHit(_, _, _)
FirstHit(b, ray, i) ==
  IF i > Len(ray) THEN 0
  ELSE IF b[ray[i]] # 0 THEN ray[i] ELSE FirstHit(b, ray, i + 1)

\* does some piece of colour c, on a line in direction d from s, attack s?
LineAttack(b, s, c, d) ==
  LET ray == Ray[s][d] IN
  /\ ray # <<>>
  /\ LET p == b[ray[1]] IN
     IF p # 0 THEN p \in Near[c + 1][d]
     ELSE LET h == FirstHit(b, ray, 2) IN h # 0 /\ b[h] \in Far[c + 1][d]

Attacked(b, s, c) ==
  \/ \E d \in 1..8 : LineAttack(b, s, c, d)
  \/ \E k \in KnightTo[Opp(c) + 1][s] : b[k] = Mk(c, KNIGHT)

\* the set of squares holding a piece of colour c that attacks s
Attackers(b, s, c) ==
  { k \in KnightTo[Opp(c) + 1][s] : b[k] = Mk(c, KNIGHT) }
  \cup UNION { LET h == FirstHit(b, Ray[s][d], 1) IN
               IF h # 0 /\ LineAttack(b, s, c, d) THEN {h} ELSE {} : d \in 1..8 }

\* square of the king of colour c, 0 if there is none
KingSq(b, c) ==
  LET K == Mk(c, KING) IN
  IF \E s \in Sq : b[s] = K THEN CHOOSE s \in Sq : b[s] = K ELSE 0

InCheckB(b, c) == LET k == KingSq(b, c) IN k # 0 /\ Attacked(b, k, Opp(c))
InCheck(pos) == InCheckB(pos.b, pos.t)

(***************************************************************************)
(* Moves                                                                   *)
(***************************************************************************)
MvTo(m) == (m % 128) + 1
MvFromRaw(m) == (m \div 128) % 128
MvIsDrop(m) == MvFromRaw(m) >= 81
MvFrom(m) == MvFromRaw(m) + 1                   \* board moves only
MvDropType(m) == MvFromRaw(m) - 80              \* drops only
MvPromo(m) == (m \div 16384) % 2 = 1
MvPt(m) == (m \div 65536) % 16
MvCap(m) == (m \div 1048576) % 16
Mv16(m) == m % 65536

BoardMove(from, to, promo, pt, cap) ==
  (to - 1) + 128 * (from - 1) + (IF promo THEN 16384 ELSE 0) + 65536 * pt + 1048576 * cap
\* a drop carries no moving-piece field beyond the from code
DropMove(pt, to) == (to - 1) + 128 * (80 + pt)

\* squares to which the piece on s may move, ignoring king safety
RECURSIVE SlideTargets(_, _, _, _)
SlideTargets(b, ray, i, c) ==
  IF i > Len(ray) THEN {}
  ELSE IF b[ray[i]] = 0 THEN {ray[i]} \cup SlideTargets(b, ray, i + 1, c)
  ELSE IF Col(b[ray[i]]) = c THEN {} ELSE {ray[i]}

Targets(b, s) ==
  LET p == b[s]
      c == Col(p)
      st == { x \in StepTo[p][s] : b[x] = 0 \/ Col(b[x]) # c }
  IN IF SlideOf[p] = {} THEN st
     ELSE st \cup UNION { SlideTargets(b, Ray[s][d], 1, c) : d \in SlideOf[p] }

\* the (up to two) moves of the piece on s to x: promoting and not promoting
MovesFromTo(b, s, x) ==
  LET p == b[s]  c == Col(p)  pt == Typ(p)  cap == Typ(b[x]) IN
  (IF x \in DeadEnd[p] THEN {} ELSE { BoardMove(s, x, FALSE, pt, cap) })
  \cup (IF CanPromote(pt) /\ (s \in Zone[c + 1] \/ x \in Zone[c + 1])
        THEN { BoardMove(s, x, TRUE, pt, cap) } ELSE {})

\* board after a board move / a drop
AfterBoard(b, m, c) ==
  IF MvIsDrop(m) THEN [b EXCEPT ![MvTo(m)] = Mk(c, MvDropType(m))]
  ELSE [b EXCEPT ![MvTo(m)] = b[MvFrom(m)] + (IF MvPromo(m) THEN 8 ELSE 0), ![MvFrom(m)] = 0]

\* the move does not leave the own king (on k, 0 if absent) attacked
KingSafe(b, c, k, inchk, m) ==        \* m a board move
  IF k = 0 THEN TRUE
  ELSE IF MvFrom(m) = k THEN ~Attacked(AfterBoard(b, m, c), MvTo(m), Opp(c))
  ELSE IF inchk \/ MvFrom(m) \in Aligned[k] THEN ~Attacked(AfterBoard(b, m, c), k, Opp(c))
  ELSE TRUE

BoardMoves(b, c) ==
  UNION { UNION { MovesFromTo(b, s, x) : x \in Targets(b, s) } :
          s \in { s \in Sq : b[s] # 0 /\ Col(b[s]) = c } }

\* some legal board move exists for colour c (used for mate tests)
HasBoardMove(b, c) ==
  LET k == KingSq(b, c)
      inchk == k # 0 /\ Attacked(b, k, Opp(c))
  IN \E s \in { s \in Sq : b[s] # 0 /\ Col(b[s]) = c } :
       \E x \in Targets(b, s) : \E m \in MovesFromTo(b, s, x) : KingSafe(b, c, k, inchk, m)

HasPawnOnFile(b, c, f) == \E r \in 0..8 : b[Ix(f, r)] = Mk(c, PAWN)
\* the squares where a dropped piece is allowed as far as king safety goes: any
\* empty square, or, in check, the empty squares that interrupt the check
DropSquares(b, c, k, inchk) ==
  LET empty == { s \in Sq : b[s] = 0 } IN
  IF ~inchk THEN empty
  ELSE { s \in empty \cap Aligned[k] : ~Attacked([b EXCEPT ![s] = Mk(c, GOLD)], k, Opp(c)) }

\* A pawn drop is uchifuzume when it gives checkmate. A pawn's check is a
\* contact check, so dropping a piece can never answer it.
PawnDropMates(b, c, s) ==
  LET e == Opp(c)
      f == IF c = 0 THEN s - 1 ELSE s + 1        \* the square in front
  IN /\ f \in Sq /\ b[f] = Mk(e, KING) /\ File(f) = File(s)
     /\ ~HasBoardMove([b EXCEPT ![s] = Mk(c, PAWN)], e)

\* the squares where a piece of type pt in hand may be dropped, given DropSquares D
DropTo(b, c, pt, D) ==
  IF pt = PAWN
  THEN { s \in D \ DeadEnd[Mk(c, PAWN)] :
           ~HasPawnOnFile(b, c, File(s)) /\ ~PawnDropMates(b, c, s) }
  ELSE D \ DeadEnd[Mk(c, pt)]

LegalDrops(b, hand, c, k, inchk) ==
  LET D == DropSquares(b, c, k, inchk) IN
  UNION { { DropMove(SlotType[i], s) : s \in DropTo(b, c, SlotType[i], D) } :
          i \in { j \in 1..7 : hand[j] > 0 } }

LegalMoves(pos) ==
  LET b == pos.b  c == pos.t
      k == KingSq(b, c)
      inchk == k # 0 /\ Attacked(b, k, Opp(c))
  IN { m \in BoardMoves(b, c) : KingSafe(b, c, k, inchk, m) }
     \cup LegalDrops(b, pos.h[c + 1], c, k, inchk)

\* membership without enumerating every move (same relation)
IsLegal(pos, m) ==
  LET b == pos.b  c == pos.t
      k == KingSq(b, c)
      inchk == k # 0 /\ Attacked(b, k, Opp(c))
  IN /\ MvTo(m) \in Sq
     /\ IF MvIsDrop(m)
        THEN /\ MvDropType(m) \in 1..7
             /\ m = DropMove(MvDropType(m), MvTo(m))
             /\ pos.h[c + 1][HandSlot[MvDropType(m)]] > 0
             /\ MvTo(m) \in DropTo(b, c, MvDropType(m), {MvTo(m)} \cap DropSquares(b, c, k, inchk))
        ELSE /\ b[MvFrom(m)] # 0 /\ Col(b[MvFrom(m)]) = c
             /\ MvTo(m) \in Targets(b, MvFrom(m))
             /\ m \in MovesFromTo(b, MvFrom(m), MvTo(m))
             /\ KingSafe(b, c, k, inchk, m)

\* no legal move at all
NoLegalMove(pos) ==
  /\ ~HasBoardMove(pos.b, pos.t)
  /\ LET b == pos.b  c == pos.t
         k == KingSq(b, c)
         inchk == k # 0 /\ Attacked(b, k, Opp(c))
         D == DropSquares(b, c, k, inchk)
     IN ~ \E i \in 1..7 : pos.h[c + 1][i] > 0 /\ DropTo(b, c, SlotType[i], D) # {}

Checkmated(pos) == InCheck(pos) /\ NoLegalMove(pos)

(***************************************************************************)
(* Playing a move                                                          *)
(***************************************************************************)
AfterHand(h, m, c) ==
  IF MvIsDrop(m) THEN [h EXCEPT ![c + 1][HandSlot[MvDropType(m)]] = @ - 1]
  ELSE IF MvCap(m) # 0 THEN [h EXCEPT ![c + 1][HandSlot[Demote(MvCap(m))]] = @ + 1]
  ELSE h

Play(pos, m) == [ b |-> AfterBoard(pos.b, m, pos.t),
                  h |-> AfterHand(pos.h, m, pos.t),
                  t |-> Opp(pos.t) ]
Pass(pos) == [pos EXCEPT !.t = Opp(@)]

GivesCheck(pos, m) == InCheck(Play(pos, m))
MatesInOne(pos) == { m \in LegalMoves(pos) : Checkmated(Play(pos, m)) }

=============================================================================
