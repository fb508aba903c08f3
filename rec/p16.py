"""PGN export and diagrams of positions."""
import os
import re
import xml.etree.ElementTree as ET

import cshogi
from cshogi import Board, KIF, PGN
import gen
import p15
import recs
from recs import word

COLOR = {"black": 0, "white": 16}
NAMES = {"pawn": 1, "lance": 2, "knight": 3, "silver": 4, "bishop": 5, "rook": 6, "gold": 7, "king": 8, "pro-pawn": 9, "pro-lance": 10, "pro-knight": 11,
         "pro-silver": 12, "horse": 13, "dragon": 14}
NS = "{http://www.w3.org/2000/svg}"
HREF = "{http://www.w3.org/1999/xlink}href"


def svg(b, last, scale):
    return read_svg(str(b.to_svg(lastmove=last, scale=scale) if last is not None else b.to_svg(scale=scale)), last)


def read_svg(x, last):
    root = ET.fromstring(x)
    pcs, marks, hands = [], [], {0: [], 1: []}
    for e in root:
        if e.tag == NS + "use":
            m = re.match(r"#(black|white)-(.*)$", e.get(HREF))
            pcs.append([round((float(e.get("x")) - 20.5) / 20), round((float(e.get("y")) - 10.5) / 20), NAMES.get(m.group(2), 99) + COLOR[m.group(1)] if m else -1])
        elif e.tag == NS + "rect" and e.get("fill") in ("#f6b94d", "#fdf0e3"):
            marks.append([round((float(e.get("x")) - 20.5) / 20), round((float(e.get("y")) - 10.5) / 20)])
        elif e.tag == NS + "text" and e.text:
            c = 1 if e.get("transform") else 0
            hands[c].append((-float(e.get("y")), e.text))
    return dict(svg=pcs, marks=marks, marked=last or 0, svgh=[[t for _, t in sorted(hands[c], key=lambda z: z[0])] for c in (0, 1)])


def diagrams(s, rng):
    pos = p15.crowd(rng) if rng.random() < 0.3 else gen.any_position(rng)
    pos.ply = rng.choice([1, 1, 77])
    b = Board(gen.sfen(pos))
    s.emit("start", **recs.at(pos))
    for _ in range(rng.choice([1, 2, 3, 4])):
        lm = list(b.legal_moves)
        d = dict(bod=KIF.board_to_bod(b), bodfull=b.to_bod(), repr=repr(b))
        d.update(svg(b, b.peek() if b.history and rng.random() < 0.8 else None, rng.choice([1.0, 2.0])))
        if lm:
            q = rng.sample(lm, min(20, len(lm)))
            last = b.peek() if b.history else None
            d.update(bodm=[dict(m=m, s=KIF.move_to_bod(m, b)) for m in q], san=[dict(m=m, s=PGN.move_to_san(m)) for m in q],
                     kif=[dict(m=m, s=KIF.move_to_kif(m, last)) for m in q])
        s.emit("show", **d)
        if not lm:
            break
        m = gen.choose(rng, lm, "sharp")
        if b.history and rng.random() < 0.4:
            same = [x for x in lm if gen.mv_to(x) == gen.mv_to(b.peek())]
            m = rng.choice(same) if same else m
        b.push(m)
        s.emit("w", call="play", m=m, out="")


def pgn(s, rng, path):
    t = recs.Tail(path, "utf-8")
    ex = None
    for n in range(rng.choice([1, 1, 2])):
        if ex is None or rng.random() < 0.5:
            if ex is not None:
                ex.close()
            ex = PGN.Exporter(path, append=n > 0)
        pos = gen.parse_sfen(gen.START) if rng.random() < 0.6 else gen.any_position(rng)
        res = rng.choice(["BLACK", "WHITE", "DRAW", "none"])
        d = recs.date(rng)
        e = dict(names=[word(rng), word(rng)], event=rng.choice(["?", "Cup"]), site=rng.choice(["?", "here"]), round=rng.choice([1, 12]), res=res)
        s.emit("start", **recs.at(pos))
        code = {"BLACK": cshogi.BLACK_WIN, "WHITE": cshogi.WHITE_WIN, "DRAW": cshogi.DRAW, "none": rng.choice([None, -1])}[res]
        kw = dict(starttime=d)
        if e["event"] != "?" or rng.random() < 0.5: kw["event"] = e["event"]
        if e["site"] != "?" or rng.random() < 0.5: kw["site"] = e["site"]
        if e["round"] != 1 or rng.random() < 0.5: kw["round"] = e["round"]
        ex.tag_pair(e["names"], code, **kw)
        s.emit("w", call="pgn_tags", date="%04d.%02d.%02d" % (d.year, d.month, d.day), out=t.new(ex.f), **e)
        moves = recs.game(rng, pos, recs.length(rng) + rng.choice([0, 40]))
        for m in moves:
            s.emit("w", call="play", m=m, out="")
        ex.movetext(moves)
        s.emit("w", call="pgn_moves", res=res, out=t.new(ex.f))
    ex.close()


def session(s, i, rng, tier):
    if i % 3:
        diagrams(s, rng)
    else:
        path = "r%d.pgn" % i
        pgn(s, rng, path)
        os.unlink(path)


def odd(ev):
    import refrec
    return refrec.odd(ev)
