#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after an edit; no check uses it)."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import registry

TV = "TLA+ specification of the rules and of the board object; TLC validates recorded sessions of the real code against it"
NOTE = ("TLC evaluates the specification on every event of every recorded session; nothing is claimed about inputs no session "
        "contained. Trusted: TLC, the specification's transcription of the rules, the recorders.")


def P(id, title, statement, over, text, why, files, mech, technique=TV, note=NOTE, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    return d, technique, note


PROPS = [
 P("P01", "The legal move list is exactly the legal moves of shogi",
   "In every position, the list of legal moves contains exactly the moves the rules of shogi allow, each once: piece movement, compulsory and optional promotion, drops, two pawns on a file, dead-end squares, checks, pins and mate by a dropped pawn. The game-over flag is set exactly when the list is empty, and the in-check flag exactly when the king of the side to move is attacked.",
   ["inputs", "histories"], "every position with at most one king per side, reached by any sequence of moves or set directly",
   "The tests count moves in a handful of positions; special-cased generators (evasions, pins, double checks, promotions on each rank, drops of each hand combination, both colours) have far more cases than they visit.",
   ["src/generateMoves.cpp", "src/position.cpp", "src/position.hpp", "src/bitboard.cpp", "src/bitboard.hpp", "src/cshogi.h", "cshogi/_cshogi.pyx"],
   [("move generation", "src/generateMoves.cpp generateMoves<>"), ("legality filter", "src/position.cpp Position::pseudoLegalMoveIsLegal, isPawnDropCheckMate"), ("attack tables", "src/bitboard.cpp")]),
 P("P02", "Moves given from outside are accepted exactly when legal",
   "A move offered as a number or as USI or CSA text is accepted exactly when it denotes a legal move of the position, and an accepted text means the legal move whose standard text it is. Anything else is refused without changing the board.",
   ["inputs", "histories"], "every position and every move number or text, well formed or not",
   "Tests try a few well-formed moves; the external-input path has its own legality logic, separate from the generator, with a case per piece, promotion zone and colour.",
   ["src/position.cpp", "src/usi.cpp", "src/cshogi.h", "cshogi/_cshogi.pyx"],
   [("legality of an arbitrary move", "src/position.cpp Position::moveIsPseudoLegal"), ("text parsing", "src/usi.cpp usiToMove, csaToMove"), ("Board.is_legal, push_usi, push_csa, move_from_usi, move_from_csa", "cshogi/_cshogi.pyx")]),
 P("P03", "Making a move changes the position exactly as the rules say",
   "After a move is made, squares, hands, side to move, move number, history, check state and king squares are what the rules of shogi give, and no other part of the position changes. Captured pieces enter the capturer's hand unpromoted and no piece is ever created or lost.",
   ["histories", "inputs"], "every legal move in every position, and every sequence of moves, passes and direct edits",
   "Tests replay a few games; the incremental update keeps many redundant structures (bitboards, piece array, hands, checkers, keys) that must agree after any sequence.",
   ["src/position.cpp", "src/position.hpp", "src/hand.hpp", "src/cshogi.h", "cshogi/_cshogi.pyx"],
   [("incremental update", "src/position.cpp Position::doMove"), ("redundant views", "src/cshogi.h __Board::pieces, piece, pieces_in_hand, kingSquare")]),
 P("P04", "Taking moves back restores the board, and copies are independent",
   "Undoing moves and passes restores everything a board reports, in any interleaving of moves, undos, passes and edits. A copied, reset or re-set board has no connection to the original: acting on one never changes the other.",
   ["histories"], "every interleaving of push, pop, pass, copy, set and reset on several boards",
   "Tests undo at most a move or two from one board; state shared between copies or left over after a reset shows only in particular interleavings.",
   ["src/position.cpp", "src/position.hpp", "src/cshogi.h", "cshogi/_cshogi.pyx"],
   [("undo", "src/position.cpp Position::undoMove, undoNullMove"), ("history and copies", "src/cshogi.h __Board copy constructor, states, move_hist")]),
 P("P05", "Repetition and perpetual check are judged by the game's history",
   "The draw query reports a repetition, a win or loss by perpetual check, or a superior or inferior repetition exactly as the sequence of positions since the start of the board's history implies, within the given number of plies. Asking about a move not yet made gives the same answer as making it and asking.",
   ["histories"], "every history, every look-back bound and every legal move from it",
   "Tests build two or three cycles; the answer depends on counters carried along the whole history for each side, on null moves and on hands.",
   ["src/position.cpp", "src/position.hpp", "src/cshogi.h", "cshogi/_cshogi.pyx"],
   [("repetition test", "src/position.cpp Position::isDraw"), ("hypothetical move", "src/cshogi.h __Board::moveIsDraw"), ("perpetual check counters", "src/position.cpp Position::doMove continuousCheck")]),
 P("P06", "Position keys and book keys are functions of the position",
   "The position key depends only on board, hands and side to move, however the position was reached, and different positions get different keys; the opening-book key of a position, and that of the position after a move, is the published function of the position.",
   ["histories", "inputs"], "every pair of histories leading to the same or to different positions",
   "Tests compare one or two constants; incremental key updates can drift on a particular capture, promotion, drop, undo or pass only.",
   ["src/position.cpp", "src/position.hpp", "src/book.cpp", "src/mt64bit.hpp", "src/cshogi.h"],
   [("incremental keys", "src/position.cpp Position::doMove boardKey, handKey"), ("recomputation", "src/position.cpp computeBoardKey, computeHandKey"), ("book keys", "src/book.cpp Book::bookKey, bookKeyAfter")]),
 P("P07", "A win by declaration is offered exactly under the 27-point rule",
   "The declaration query is true exactly when the side to move fulfils the 27-point rule: king in the promotion zone, not in check, at least ten other pieces there, and 28 points for Black or 27 for White counting those pieces and the hand.",
   ["inputs"], "every position",
   "Tests check a few positions; every condition has a boundary and a mirror image for the other colour.",
   ["src/search.cpp", "src/cshogi.h"], [("declaration", "src/search.cpp nyugyoku")]),
 P("P08", "A mate reported by the fixed-depth mate search is a forced mate",
   "A move returned as mating within a number of plies is legal and leads to checkmate within that number against every defence, and a side reported as mated is. A mate in one is never missed by the search of three or more plies, and the board is left as it was.",
   ["inputs", "histories"], "every position with both kings (the one-ply query: side to move not in check) and every odd or even depth",
   "Tests try a dozen positions; the one-ply routine is a thousand lines of cases per piece, direction, pin and interposition.",
   ["src/position.cpp", "src/mate.cpp", "src/generateMoves.cpp", "src/cshogi.h"],
   [("one-ply mate", "src/position.cpp Position::mateMoveIn1Ply, canKingEscape, canPieceCapture"), ("deeper mate", "src/mate.cpp mateMoveInOddPly, mateMoveInEvenPly"), ("check generation", "src/generateMoves.cpp generateMoves<CheckAll>")]),
 P("P09", "Proof-number mate solvers only claim real mates",
   "When a df-pn solver answers that there is a mate, the move it gives forces mate against every defence and the line it gives is a legal line ending in checkmate (the second solver cuts its line off at its depth limit); the default solver never misses a mate of up to three plies that its limits allow. A search leaves the board as it was; all this also holds for a solver that has searched other positions before.",
   ["inputs", "histories", "configurations"], "every position, depth limit and sequence of searches with one solver",
   "Tests run a few problems; a wrong dominance or table entry shows only in particular transpositions.",
   ["src/dfpn.cpp", "src/dfpn.h", "src/osl_dfpn.cpp", "src/osl_dfpn.h", "src/cshogi.h"],
   [("df-pn search and proof pieces", "src/dfpn.cpp DfPn::dfpn_inner"), ("line extraction", "src/dfpn.cpp DfPn::get_pv_inner"), ("second solver", "src/osl_dfpn.cpp")]),
 P("P10", "Positions survive every text and packed format, and bad input is refused",
   "Writing a position as SFEN, as CSA board text or in either packed format and reading it back gives the same position, and the packed bytes are the published encoding. Reading text or bytes that encode no position is refused with an exception and never crashes or yields a position the input does not denote.",
   ["inputs"], "every position and every input text or byte string",
   "Tests round-trip a few positions and never feed damaged input.",
   ["src/position.cpp", "src/cshogi.h", "cshogi/_cshogi.pyx", "src/usi.cpp"],
   [("SFEN", "src/position.cpp Position::set, toSFEN"), ("packed formats", "src/position.cpp toHuffmanCodedPos, toPackedSfen, Position::set"), ("rotation", "src/cshogi.h __rotate_sfen")]),
 P("P11", "Move encodings and accessors agree with each other and with the board",
   "For every legal move, the accessors, the 16-bit form, the other packed form, the rotated move, the USI and CSA texts and the class label are those of that move; converting a move to a shorter form and back in its position gives the same move, and building it from its parts gives the same number.",
   ["inputs"], "every legal move of every position",
   "Tests check some moves of the initial position; conversions are bit arithmetic with cases for drops, promotions and colours.",
   ["src/move.hpp", "src/cshogi.h", "src/usi.cpp", "cshogi/_cshogi.pyx"],
   [("conversions", "src/cshogi.h __move16_from_psv, __move16_to_psv, __move_rotate, __dlshogi_make_move_label"), ("texts", "src/move.cpp Move::toUSI, toCSA")]),
 P("P12", "Feature planes describe the position, seen from the side to move",
   "Every feature array filled from a board contains exactly the documented planes of the position (pieces, attacks, attack counts, hands, check, and the entering-king planes when enabled), rotated for White where documented, and nothing outside the array is written.",
   ["inputs", "configurations"], "every position, with and without the entering-king planes",
   "Tests compare the planes of two or three positions; hand counts, attack counts and rotation have caps and boundaries.",
   ["src/cshogi.h", "cshogi/_cshogi.pyx", "cshogi/dlshogi/__init__.py"],
   [("planes", "src/cshogi.h __Board::piece_planes, piece_planes_rotate, _dlshogi_make_input_features")]),
]
exec(open(os.path.join(VERIF, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(VERIF, "tools", "props_more.py")) else None
NA = globals().get("NA", [])

with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
    for d, _, _ in PROPS:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for d, tech, note in PROPS:
    if d["id"] in registry.CHECKS:
        checks.append(dict(property=d["id"], quick_cmd="python3 check.py %s --tier quick" % d["id"],
                           thorough_cmd="python3 check.py %s --tier thorough" % d["id"], technique=tech, level="model_checking", level_note=note))
ids = {c["property"] for c in checks}
na = [dict(property=d["id"], reason=r) for d, r in NA]
with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na), f, indent=1, ensure_ascii=False)
    f.write("\n")
missing = [d["id"] for d, _, _ in PROPS if d["id"] not in ids and d["id"] not in {x["property"] for x in na}]
print(len(checks), "checks;", "no check for:", missing)
