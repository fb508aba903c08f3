------------------------------- MODULE BoardObs -------------------------------
(***************************************************************************)
(* What a Board reports, as a function of its stack.  ObsOk(f, e, S): the  *)
(* field f of the recorded event e is what the specification computes for  *)
(* a board with stack S.                                                   *)
(***************************************************************************)
EXTENDS Parse

SetOf(q) == { q[i] : i \in 1..Len(q) }
ArgPos(e) == [b |-> e.ab, h |-> e.ah, t |-> e.at]
SetStack(e) == NewStack(ArgPos(e), e.aply)
SetPieces(S, e) == NewStack([b |-> e.ab, h |-> e.ah, t |-> Top(S).p.t], Top(S).ply)
PopBad(e, S) == IF "ret" \in DOMAIN e /\ e.ret # Top(S).mv THEN {"ret"} ELSE {}
Bool(x) == IF x THEN 1 ELSE 0
King0(b, c) == LET k == KingSq(b, c) IN IF k = 0 THEN 81 ELSE k - 1

Observed == {"b", "h", "t", "ply", "chk", "lm", "go", "ks", "hist", "peek", "rep", "mrep",
             "nyu", "sfen", "csapos", "legal", "usi", "csa", "exc", "ok", "gck",
             "ausi", "acsa", "mattr", "hcp", "psf", "bk", "bka", "pp", "ppr", "f1", "f2", "f2n",
             "rot", "pleg", "pc", "m1", "mate", "ismate", "df", "dfand", "same"}

\* a text is accepted exactly when it is the text of a legal move, and means that move
TextOk(L, F(_), q) ==
  LET T == { F(m) : m \in L } IN
  \A i \in 1..Len(q) :
    IF q[i].r = 0 THEN q[i].s \notin T
    ELSE q[i].r \in L /\ F(q[i].r) = q[i].s

\* Mate search.  A certificate lists, for a side in check, every legal reply with the answer to it and the
\* certificate of what follows: <<reply, answer, certificate>>; <<>> certifies checkmate.
RECURSIVE Mated(_, _, _)
Mated(p, c, n) ==                      \* c shows that the side to move is mated within n plies
  /\ InCheck(p)
  /\ IF c = <<>> THEN NoLegalMove(p)
     ELSE /\ n >= 2
          /\ \A i \in 1..Len(c) : Len(c[i]) = 3
          /\ { c[i][1] : i \in 1..Len(c) } = LegalMoves(p)
          /\ \A i \in 1..Len(c) :
               LET q == Play(p, c[i][1]) IN IsLegal(q, c[i][2]) /\ Mated(Play(q, c[i][2]), c[i][3], n - 2)
Mates(p, m, c, n) == IsLegal(p, m) /\ Mated(Play(p, m), c, n - 1)
RECURSIVE Line(_, _)
Line(p, pv) == IF pv = <<>> THEN p ELSE Line(Play(p, Head(pv)), Tail(pv))
RECURSIVE LegalLine(_, _)
LegalLine(p, pv) == pv = <<>> \/ (IsLegal(p, Head(pv)) /\ LegalLine(Play(p, Head(pv)), Tail(pv)))
MatingLine(p, pv) == Len(pv) % 2 = 1 /\ LegalLine(p, pv) /\ Checkmated(Line(p, pv))
CanMateNow(p) == \E m \in LegalMoves(p) : Checkmated(Play(p, m))

\* fixed-depth search: a move returned mates within n; nothing is returned only if there is no mate in one
MateOk(p, x) == IF x.r # 0 THEN Mates(p, x.r, x.c, x.n) ELSE ~CanMateNow(p)
IsMateOk(p, x) == IF x.r = 1 THEN Mated(p, x.c, x.n) ELSE ~Checkmated(p)
\* the second solver gives no more of its line than its depth limit, though the line may be longer
CutShort(p, x) == x.solver = "osl" /\ Len(x.pv) = x.d /\ LegalLine(p, x.pv)
\* proof-number search: "mate" comes with a mating move and a line of play; "no mate" is wrong if a mate is shown
DfOk(p, x) ==
  /\ x.same = 1
  /\ IF x.r = 1 THEN Mates(p, x.m, x.c, x.n) /\ (MatingLine(p, x.pv) \/ CutShort(p, x))
     ELSE ~(x.m # 0 /\ Mates(p, x.m, x.c, x.n))
DfAndOk(p, x) == x.same = 1 /\ IF x.r = 1 THEN Mated(p, x.c, x.n) ELSE ~Checkmated(p)

ObsOk(f, e, S) ==
  LET fr == Top(S)  p == fr.p IN
  CASE f = "b"    -> e.b = p.b
    [] f = "h"    -> e.h = p.h
    [] f = "t"    -> e.t = p.t
    [] f = "ply"  -> e.ply = fr.ply
    [] f = "chk"  -> e.chk = Bool(fr.chk)
    [] f = "ks"   -> e.ks = << King0(p.b, 0), King0(p.b, 1) >>
    [] f = "lm"   -> LET L == LegalMoves(p) IN Len(e.lm) = Cardinality(L) /\ SetOf(e.lm) = L
    [] f = "go"   -> e.go = Bool(NoLegalMove(p))
    [] f = "hist" -> e.hist = History(S)
    [] f = "peek" -> e.peek = fr.mv
    [] f = "rep"  -> \A i \in 1..Len(e.rep) : e.rep[i].r = Repetition(S, e.rep[i].n)
    [] f = "mrep" -> \A i \in 1..Len(e.mrep) : e.mrep[i].r = MoveRepetition(S, e.mrep[i].m, e.mrep[i].n)
    [] f = "nyu"  -> e.nyu = Bool(CanDeclare(p))
    [] f = "sfen" -> e.sfen = Sfen(p, fr.ply)
    [] f = "csapos" -> e.csapos = CsaPos(p)
    [] f = "legal" -> \A i \in 1..Len(e.legal) : e.legal[i].r = Bool(IsLegal(p, e.legal[i].m))
    [] f = "usi"  -> \A i \in 1..Len(e.usi) : e.usi[i].s = Usi(e.usi[i].m)
    [] f = "csa"  -> \A i \in 1..Len(e.csa) : e.csa[i].s = Csa(e.csa[i].m)
    [] f = "exc"  -> e.exc = ""
    [] f = "ok"   -> e.ok = 1
    [] f = "gck"  -> \A i \in 1..Len(e.gck) : e.gck[i].r = Bool(GivesCheck(p, e.gck[i].m))
    [] f = "ausi" -> TextOk(LegalMoves(p), Usi, e.ausi)
    [] f = "acsa" -> TextOk(LegalMoves(p), Csa, e.acsa)
    [] f = "mattr" -> \A i \in 1..Len(e.mattr) : e.mattr[i] = MoveAttr(e.mattr[i][1])
    [] f = "hcp"  -> IF Packable(p) THEN e.hcp = Hcp(p) ELSE e.hcp = <<>>
    [] f = "psf"  -> IF Packable(p) THEN e.psf = Psfen(p) ELSE e.psf = <<>>
    [] f = "bk"   -> e.bk = BookKey(p)
    [] f = "bka"  -> \A i \in 1..Len(e.bka) : e.bka[i].k = BookKey(Play(p, e.bka[i].m))
    [] f = "pp"   -> SetOf(e.pp) = PiecePlanes(p.b)
    [] f = "ppr"  -> SetOf(e.ppr) = PiecePlanesRot(p)
    [] f = "f1"   -> SetOf(e.f1) = Feat1(p)
    [] f = "f2"   -> SetOf(e.f2) = Feat2(p)
    [] f = "f2n"  -> NyuOk(p, SetOf(e.f2n))
    [] f = "rot"  -> e.rot = Sfen(RotPos(p), fr.ply)
    [] f = "pleg" -> SetOf(e.pleg) = LegalMoves(p)
    [] f = "pc"   -> e.pc = p.b
    [] f = "m1"   -> e.m1 = 0 \/ (IsLegal(p, e.m1) /\ Checkmated(Play(p, e.m1)))
    [] f = "mate" -> \A i \in 1..Len(e.mate) : MateOk(p, e.mate[i])
    [] f = "ismate" -> \A i \in 1..Len(e.ismate) : IsMateOk(p, e.ismate[i])
    [] f = "df"   -> \A i \in 1..Len(e.df) : DfOk(p, e.df[i])
    [] f = "dfand" -> \A i \in 1..Len(e.dfand) : DfAndOk(p, e.dfand[i])
    [] f = "same" -> e.same = 1
    [] OTHER -> FALSE
===============================================================================
