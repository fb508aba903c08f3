"""KI2 records: names of moves, what the exporter writes, and what the parser reads."""
import os

import cshogi
from cshogi import Board, KI2
import gen
import recs
import p14
from recs import word


def crowd(rng):
    """Several pieces of one kind around a square they can reach."""
    while True:
        pos = gen.Pos(t=rng.randrange(2))
        pt = rng.choice([4, 4, 7, 7, 9, 9, 12, 10, 11, 3, 2, 5, 6, 13, 13, 14, 14])
        c = pos.t
        centre = 9 * rng.randrange(9) + rng.randrange(9)
        n = {4: 4, 7: 4, 9: rng.randint(2, 6), 12: 4, 10: 4, 11: 4, 3: 2, 2: 2}.get(pt, 2)
        n = rng.randint(2, n) if n > 2 else 2
        f0, r0 = divmod(centre, 9)
        sign = 1 if c == 0 else -1
        ways = [(-a * sign, -b * sign, 1) for a, b in gen.STEP.get(pt, ())] + [(-a * sign, -b * sign, 8) for a, b in gen.SLIDE.get(pt, ())]
        rng.shuffle(ways)
        put = 0
        for a, b, d in ways * 2:
            k = rng.randint(1, d)
            f, r = f0 + a * k, r0 + b * k
            if put < n and 0 <= f < 9 and 0 <= r < 9 and not pos.b[9 * f + r] and not gen.dead_end(pt, c, 9 * f + r):
                pos.b[9 * f + r] = pt + 16 * c
                put += 1
        if put < 2:
            continue
        if rng.random() < 0.5:
            base = pt - 8 if pt > 8 else pt
            if base != 8:
                pos.h[c][gen.SLOT[base]] = 1
        free = [x for x in range(81) if not pos.b[x] and x != centre]
        ks = rng.sample(free, 2)
        pos.b[ks[0]], pos.b[ks[1]] = 8, 24
        for _ in range(rng.choice([0, 0, 2, 5])):
            x = rng.choice(free)
            q = rng.choice([1, 2, 4, 5, 6, 7, 13, 14])
            cc = rng.randrange(2)
            if not pos.b[x] and not gen.dead_end(q, cc, x):
                pos.b[x] = q + 16 * cc
        if rng.random() < 0.3 and not pos.b[centre]:
            pos.b[centre] = rng.choice([1, 4, 7, 6]) + 16 * (1 - c)
            if gen.dead_end(pos.b[centre] & 15, 1 - c, centre):
                pos.b[centre] = 7 + 16 * (1 - c)
        if gen.ok(pos):
            return pos


def names(s, rng, i):
    pos = crowd(rng) if rng.random() < 0.7 else gen.any_position(rng)
    pos.ply = 1
    b = Board(gen.sfen(pos))
    s.emit("start", **recs.at(pos))
    for step in range(rng.choice([1, 2, 3])):
        lm = list(b.legal_moves)
        if not lm:
            break
        q = []
        for m in lm:
            t = KI2.move_to_ki2(m, b)
            try:
                back = KI2.Parser.parse_move_str(t, b.copy())
            except (IndexError, AssertionError, ValueError) as e:
                back = [-1]
            q.append(dict(m=m, s=t, back=back))
        s.emit("show", ki2=q)
        k = rng.random()
        m = gen.choose(rng, lm, "sharp")
        if step and k < 0.5:
            same = [x for x in lm if gen.mv_to(x) == gen.mv_to(last)]
            m = rng.choice(same) if same else m
        b.push(m)
        s.emit("w", call="play", m=m, out="")
        last = m


def write(s, rng, path, ex=None):
    pos = gen.parse_sfen(gen.START)
    t = recs.Tail(path, "cp932")
    if ex is None:
        ex = KI2.Exporter(path) if rng.random() < 0.5 else KI2.Exporter()
        if ex.kifu is None:
            ex.open(path)
    else:
        ex.open(path)
    names, d = [word(rng, recs.CP932), word(rng, recs.CP932)], recs.date(rng)
    s.emit("start", **recs.at(pos))
    ex.header(names, starttime=d)
    s.emit("w", call="ki2_header", names=names, date=recs.dtext(d), out=t.new(ex.kifu))
    for m in recs.game(rng, pos, recs.length(rng) + rng.choice([0, 30])):
        c = rng.choice(["", "", "", "好手", "x"])
        ex.move(m, c or None)
        s.emit("w", call="ki2_move", m=m, cmt=c, out=t.new(ex.kifu))
    code = rng.choice(["%TORYO", "%JISHOGI", "%KACHI", "%SENNICHITE", "%+ILLEGAL_ACTION", "%-ILLEGAL_ACTION", "%ILLEGAL_MOVE"])
    ex.end(code)
    s.emit("w", call="ki2_end", code=code, out=t.new(ex.kifu))
    ex.close()
    return ex


def qualifiers(rng, b, m):
    """One qualifier that is true of this board move and of no other that goes there."""
    c = b.turn
    to = gen.mv_to(m)
    per = lambda x: x if c == 0 else 80 - x
    mot = lambda f: "上" if per(f) % 9 > per(to) % 9 else "引" if per(f) % 9 < per(to) % 9 else "寄"
    side = lambda f: "左" if per(f) // 9 > per(to) // 9 else "右" if per(f) // 9 < per(to) // 9 else "直"
    froms = {gen.mv_from(x) for x in b.legal_moves if gen.mv_to(x) == to and gen.mv_from(x) < 81 and gen.mv_pt(x) == gen.mv_pt(m)}
    f = gen.mv_from(m)
    out = []
    for i, fn in enumerate((side, mot)):
        if [x for x in froms if fn(x) == fn(f)] == [f]:
            out.append([fn(f), ""] if i == 0 else ["", fn(f)])
    return rng.choice(out) if out else []


def record(rng):
    h = rng.choice(["平手", "平手"] + p14.HANDICAPS)
    pos = p14.handicap(h)
    items = p14.header(rng, "ki2", h)
    items = [x for x in items if x["k"] != "noise"]
    moves = recs.game(rng, pos, recs.length(rng))
    b = Board(gen.sfen(pos))
    i = 0
    last = None
    while i < len(moves):
        q = []
        text = ""
        for _ in range(rng.choice([1, 1, 3, 6])):
            if i >= len(moves):
                break
            m = moves[i]
            drop = gen.mv_from(m) >= 81
            x = dict(m=m, same=rng.choice([1, 2]) if last is not None and gen.mv_to(m) == gen.mv_to(last) else 0, alt=rng.randrange(2),
                     q=qualifiers(rng, b, m) if not drop and rng.random() < 0.3 else [], sp=rng.choice(["", " ", "　", "   "]))
            std = KI2.move_to_ki2(m, b)
            # spell the standard text in the chosen way
            body = std[1:]
            to = gen.mv_to(m)
            sq = p14.KNUM[to // 9] + p14.KKAN[to % 9]
            rest = body[1:].lstrip("　") if body[0] == "同" else body[2:]
            nm = [n for n in (p14.piece(m, 1), p14.piece(m, 0)) if rest.startswith(n)][0]
            tail = rest[len(nm):]
            if x["q"]:
                pro = "成" if gen.mv_pro(m) else "不成" if tail.endswith("不成") else ""
                tail = "".join(x["q"]) + pro
            if x["same"] and rng.random() < 0.1:
                x["same"] = 0
            text += std[0] + (("同　" if x["same"] == 1 else "同") if x["same"] else sq) + p14.piece(m, x["alt"]) + tail + x["sp"]
            q.append(x)
            b.push(m)
            last = m
            i += 1
        items.append(dict(k="moves", q=q, line=text))
        p14.comments(rng, items, 0.2)
        if rng.random() < 0.1:
            items.append(dict(k="blank"))
    if rng.random() < 0.8:
        items.append(p14.result_item(rng, len(moves), "ki2"))
        if rng.random() < 0.2:
            items += [dict(k="noise", line="変化：1手"), dict(k="noise", line="▲７六歩")]
    return items


def session(s, i, rng, tier):
    if i % 4 in (0, 1):
        names(s, rng, i)
    elif i % 4 == 2:
        path = "r%d.ki2" % i
        ex = None
        for _ in range(rng.choice([1, 1, 2])):
            ex = write(s, rng, path, ex)
            os.unlink(path)
    else:
        p14.read(s, rng, record(rng), "ki2", KI2, "r%d" % i)


def odd(ev):
    import refrec
    return refrec.odd(ev)
