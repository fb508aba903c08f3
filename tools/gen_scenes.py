#!/usr/bin/env python3
"""Writes spec/scenes.*.ndjson: the scenes of BoardModel (see there).
   design                explored with every invariant
   rep, undo, rules      behaviours printed for replay on the real board (.quick, .thorough: shallower and deeper)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "rec"))
import gen  # noqa: E402

# name: sfen, moves ("": every legal move), operations, depth (design, quick, deep)
SCENES = [
    # a rook gives check for ever, or not
    ("chase", "4k4/9/9/9/9/9/9/9/K3R4 w - 1", "5a4a 4a5a 5a6a 6a5a 5i4i 4i5i 5i6i 6i5i 9i9h 9h9i", "", (10, 9, 12)),
    ("chase-alt", "4k4/9/9/9/9/9/9/9/K4R3 b - 7", "5a4a 4a5a 4a3a 3a4a 5i4i 4i5i 4i3i 3i4i 9i9h 9h9i", "", (10, 8, 11)),
    # the same by White, with a dragon; checks that do not alternate
    ("dragon", "k3+r4/9/9/9/9/9/9/9/4K4 b - 1", "5i4h 4h5i 5i6i 6i5i 5a4b 4b5a 5a6a 6a5a 9a9b 9b9a", "", (10, 9, 12)),
    # both sides check
    ("both", "4k4/9/9/3+R5/9/9/3+r5/9/4K4 b - 3", "6d5d 5d6d 6g5g 5g6g 5a4a 4a5a 5i4i 4i5i", "", (10, 9, 13)),
    # shuffling without checks; a third square makes longer cycles
    ("shuffle", "4k4/9/9/9/9/9/9/9/4K4 b - 1", "5i5h 5h5i 5h4h 4h5i 5a5b 5b5a 5b4b 4b5a", "", (10, 10, 14)),
    # pawns wander between the hands while the board comes back
    ("hands", "3rk4/9/9/9/9/9/9/9/4K4 b 2P 1", "P*6e 6a6e 6e6a 5i5h 5h5i 5a5b 5b5a 6e5e 5e6e", "", (9, 8, 12)),
    ("exchange", "4k4/9/9/4s4/4S4/9/9/9/4K4 b - 1", "5e5d 5d5e S*5d S*5e 5a5b 5b5a 5i5h 5h5i 5e5f", "", (9, 9, 12)),
    ("golds", "4k4/9/9/4g4/4G4/9/9/9/4K4 b Gg 1", "5e5d 5d5e G*5d G*5e 5a4a 4a5a 5i4i 4i5i", "", (9, 8, 10)),
    # undo in every order: captures of promoted pieces, promotions, drops
    ("undo", "4k4/2+p1g4/1R7/9/4+b4/9/9/4N4/4K4 b GPn 1", "8c7b+ 8c7c 5h4f G*5b 5a5b 5e5h 5e7c N*5f 5b5a 5i5h", "pop", (5, 5, 6)),
    ("undo-check", "3gk4/4p4/5+P3/9/4R4/9/9/9/4K4 b Sp 1", "5e5b+ 5e5b 4c5b 5a5b 6a5b S*4b 5a4b P*5d 5a4a 4a5a", "pop", (5, 5, 6)),
    # passes between moves, and undone
    ("pass", "4k4/9/9/9/9/9/9/5R3/K8 b P 1", "5h4h 4h5h 5a4a 4a5a P*4g", "pass pop", (6, 5, 7)),
    ("pass-cycle", "4k4/9/9/9/9/9/9/9/4K4 b - 1", "5i5h 5h5i 5a5b 5b5a", "pass", (8, 7, 10)),
    # copies: the original and the copy go their own ways
    ("copy", "4k4/4p4/9/9/9/9/9/4R4/4K4 b g 1", "5h5b+ 5h5b 5a5b G*5g 5h5g 5i5h", "copy pop", (5, 4, 6)),
    ("copy-pass", "4k4/9/9/9/9/9/9/5R3/K8 b P 4", "5h4h 4h5h 5a4a 4a5a P*4g", "copy pass pop", (5, 4, 6)),
    # the start
    ("start", gen.START, "7g7f 3c3d 8h2b+ 3a2b 2g2f", "pop copy", (5, 5, 6)),
]
# every legal move from positions where the rules bite: pins, double checks, evasions, pawn-drop mate, two pawns, dead ends
SHARP = [
    "4k4/4r4/9/9/4G4/9/4S4/9/4K4 b P 1", "4k4/9/4B4/9/b8/9/9/3P5/4K4 b N 1", "5gk2/5s3/6G2/9/9/9/9/9/K8 b P 1",
    "6gk1/6s2/7G1/9/9/9/9/9/K8 b PN 1", "ln1k1g3/9/2PPPP3/9/9/9/9/9/4K4 b L 1", "4k4/9/9/4n4/9/3n5/3PG4/9/4K3r b S 1",
    "k8/9/9/9/9/9/9/7+p1/8K b RP 1", "4k4/3S5/4+P4/9/9/9/9/9/4K4 w RBp 1", "R3k4/4l4/9/9/4N4/9/9/9/4KL3 w gp 1",
    "8k/7+P1/9/8L/9/9/9/9/K8 w g 1", "9/9/9/3pkp3/3s1s3/9/4PR3/9/4K4 b P 1", "+B3k4/9/9/9/9/9/9/9/4K3+b b - 1",
]



# which property's check replays which scenes
REP = ["chase", "chase-alt", "dragon", "both", "shuffle", "hands", "exchange", "golds", "pass", "pass-cycle"]


def scene(name, pos, moves, ops, depth):
    if not gen.ok(pos):
        raise SystemExit("not a position: %s" % name)
    return dict(name=name, b=pos.b, h=pos.h, t=pos.t, ply=pos.ply, moves=moves.split(), ops=ops.split(), depth=depth)


def write(name, scenes):
    with open(os.path.join(HERE, "..", "spec", "scenes.%s.ndjson" % name), "w") as f:
        for s in scenes:
            f.write(json.dumps(s) + "\n")


def sharp(depth):
    out = []
    for j, s in enumerate(SHARP):
        p = gen.parse_sfen(s)
        out += [scene("sharp-%d" % j, p, "", "", depth), scene("sharp-%d-rot" % j, p.rot(), "", "", depth)]
    return out


def pick(i, names=None):
    return [scene(n, gen.parse_sfen(p), m, o, d[i]) for n, p, m, o, d in SCENES if names is None or (n in REP) == names]


write("design", pick(0) + sharp(1))
for i, tier in ((1, "quick"), (2, "thorough")):
    write("rep." + tier, pick(i, True))
    write("undo." + tier, pick(i, False))
    write("rules." + tier, sharp(i))


# environments: scene, moves, steps out of the ordinary, depth (quick, thorough), environments
ENVS = [
    ("chase", "4k4/9/9/9/9/9/9/9/K3R4 w - 1", "5a4a 4a5a 5i4i 4i5i 9i9h", 1, (14, 16), 1),
    ("chase-white", "k3r4/9/9/9/9/9/9/9/4K4 b - 50", "5i4i 4i5i 5a4a 4a5a", 1, (14, 18), 1),
    ("both", "4k4/9/9/3+R5/9/9/3+r5/9/4K4 b - 3", "6d5d 5d6d 6g5g 5g6g 5a4a 4a5a 5i4i 4i5i", 0, (14, 17), 1),
    ("shuffle", "4k4/9/9/9/9/9/9/9/4K4 b - 1", "5i5h 5h5i 5a5b 5b5a", 1, (14, 20), 1),
    ("hands", "3rk4/9/9/9/9/9/9/9/4K4 b 2P 1", "P*6e 6a6e 6e6a 5i5h 5h5i 5a5b 5b5a", 0, (9, 13), 1),
    ("mate", "4k4/9/4P4/9/9/9/9/9/4K4 b G 1", "G*5b G*4b 5c5b 5a4a 5b5a 5a6a 5b4a", 1, (4, 5), 1),
    ("two", gen.START, "5i5h 5h5i 5a5b 5b5a", 2, (14, 16), 2),
]
for i, tier in ((0, "quick"), (1, "thorough")):
    write("env." + tier, [dict(scene(n, gen.parse_sfen(p), m, "", d[i]), spare=x, envs=e) for n, p, m, x, d, e in ENVS])
