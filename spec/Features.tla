------------------------------- MODULE Features -------------------------------
(***************************************************************************)
(* Feature planes, as sets of the indexes that are 1.                      *)
(***************************************************************************)
EXTENDS Codec

\* 28 planes: 14 piece types of Black, then of White
PiecePlanes(b) == { (14 * Col(b[s]) + Typ(b[s]) - 1) * 81 + s - 1 : s \in { x \in Sq : b[x] # 0 } }
\* seen by the side to move
PiecePlanesRot(p) == IF p.t = 0 THEN PiecePlanes(p.b) ELSE PiecePlanes(RotPos(p).b)

\* dlshogi, own side first, board seen by the side to move: per side 14 planes of pieces,
\* 14 planes of squares attacked by a piece type, 3 planes of attack counts
View2(p) == IF p.t = 0 THEN p ELSE RotPos(p)
Feat1Side(b, c, base) ==
  { (base + Typ(b[s]) - 1) * 81 + s - 1 : s \in { x \in Sq : b[x] # 0 /\ Col(b[x]) = c } }
  \cup UNION { LET A == Attackers(b, s, c)
                   n == Cardinality(A)
               IN { (base + 14 + Typ(b[a]) - 1) * 81 + s - 1 : a \in A }
                  \cup { (base + 28 + k) * 81 + s - 1 : k \in 0..((IF n > 3 THEN 3 ELSE n) - 1) } : s \in Sq }
Feat1(p) == LET q == View2(p) IN Feat1Side(q.b, 0, 0) \cup Feat1Side(q.b, 1, 31)

\* whole planes: hands (P up to 8, L N S G up to 4, B R up to 2, own side first), check
HandCap == <<8, 4, 4, 4, 4, 2, 2>>
HandBase == <<0, 8, 12, 16, 20, 24, 26>>
HandPlanes(h, base) == UNION { { base + HandBase[i] + k : k \in 0..(MinInt(h[i], HandCap[i]) - 1) } : i \in 1..7 }
Feat2(p) == LET q == View2(p) IN
  HandPlanes(q.h[1], 0) \cup HandPlanes(q.h[2], 28) \cup (IF InCheck(p) THEN {56} ELSE {})
\* entering-king planes of the side c of the real board: king inside, pieces missing to 10, points missing
NyuBase(p, c) == 57 + 31 * (IF p.t = 0 THEN c ELSE 1 - c)
MaxInt(a, b) == IF a > b THEN a ELSE b
NyuSide(p, c) ==
  LET base == NyuBase(p, c)
      Z == ZonePieces(p, c)
      k == KingSq(p.b, c) \in Zone[c + 1]
      rest == 10 - Cardinality(Z)
      pt == (IF c = 0 THEN 28 ELSE 27) - DeclPoints(p, c)
  IN [must |-> (IF k THEN {base} ELSE {})
               \cup (IF rest \in 0..9 THEN {base + 1 + rest} ELSE {})
               \cup (IF pt \in 0..19 THEN {base + 11 + pt} ELSE {}),
      \* beyond the goal the plane "nothing missing" may or may not be set
      may |-> (IF rest < 0 THEN {base + 1} ELSE {}) \cup (IF pt < 0 THEN {base + 11} ELSE {})]
NyuOk(p, e) ==
  LET a == NyuSide(p, 0)  b == NyuSide(p, 1)
      must == Feat2(p) \cup a.must \cup b.must
  IN must \subseteq e /\ e \subseteq must \cup a.may \cup b.may
===============================================================================
