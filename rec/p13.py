"""CSA records: what the exporter writes, and what the parser reads."""
import cshogi
from cshogi import Board, CSA
import gen
import obs
import recs
from recs import word


def start(rng):
    k = rng.random()
    if k < 0.4:
        p = gen.parse_sfen(gen.START)
    else:
        p = gen.any_position(rng)
    p.ply = 1
    return p


def write(s, rng, path, enc, games):
    """Export games one after the other into one file; returns its text."""
    t = recs.Tail(path, enc)
    ex = None
    for n, (pos, moves) in enumerate(games):
        if ex is None or rng.random() < 0.5:
            if ex is not None:
                ex.close()
            ex = CSA.Exporter(path, append=n > 0, encoding=enc) if rng.random() < 0.5 else CSA.Exporter()
            if ex.f is None:
                ex.open(path, append=n > 0, encoding=enc)
        is_start = gen.sfen(pos) == gen.START
        init = rng.choice(["none", "sfen", "board"] if is_start else ["sfen", "board"])
        e = dict(ver=rng.choice(["", "V2", "V2.2"]), names=rng.choice([[], [word(rng), word(rng)], ["", word(rng)]]),
                 cmt=rng.choice(["", "", "header", "コメント"]), vars=[[k, word(rng)] for k in rng.sample(["EVENT", "SITE", "START_TIME", "TIME_LIMIT"], rng.choice([0, 0, 1, 3]))],
                 init=init, append=n > 0)
        s.emit("start", **recs.at(pos))
        nl = rng.choice(["", "\n"]) if e["cmt"] else ""
        ex.info(init_board=None if init == "none" else gen.sfen(pos) if init == "sfen" else Board(gen.sfen(pos)), names=e["names"] or None,
                var_info={k: v for k, v in e["vars"]} or None, comment=(rng.choice(["", "'"]) + e["cmt"] + nl) if e["cmt"] else None, version=e["ver"] or None)
        s.emit("w", call="csa_info", out=t.new(ex.f), **e)
        sep = rng.choice(["\n", "\n", ","])
        for m in moves:
            time = rng.choice([-1, 0, 1, 59, 600])
            cmt = rng.choice(["", "", "", "note", "** 30 7776FU", "注釈"])
            ex.move(m, time=None if time < 0 else time, comment=cmt or None, sep=sep)
            s.emit("w", call="csa_move", m=m, time=time, cmt=cmt, sep=sep, out=t.new(ex.f))
        code = rng.choice(recs.END)
        time = rng.choice([-1, 0, 7])
        ex.endgame(code, time=None if time < 0 else time)
        s.emit("w", call="csa_end", code=code, time=time, out=t.new(ex.f))
    ex.close()


def squares(rng, pos):
    """One of the ways to write down a position; a list of items."""
    items = []
    k = rng.random()
    board = [(x, p) for x, p in enumerate(pos.b) if p]
    S = gen.parse_sfen(gen.START)
    rem = [x for x in range(81) if S.b[x] and not pos.b[x]]
    if all(pos.b[x] in (0, S.b[x]) for x in range(81)):
        rng.shuffle(rem)
        items.append(dict(k="PI", rem=rem))
    elif k < 0.6:
        rows = list(range(9))
        if rng.random() < 0.2:
            rng.shuffle(rows)
        for r in rows:
            cells = [pos.b[9 * f + r] for f in range(8, -1, -1)]
            if any(cells) or rng.random() < 0.7:
                items.append(dict(k="rank", r=r + 1, cells=cells))
    else:
        rng.shuffle(board)
        for c in (0, 1):
            q = [[x, p & 15] for x, p in board if (p > 16) == (c == 1)]
            while q:
                n = rng.randint(1, len(q))
                items.append(dict(k="P", c=c, q=q[:n]))
                q = q[n:]
        rng.shuffle(items)
    for c in (0, 1):
        h = [[-1, pt] for i, pt in enumerate(gen.HAND_ORDER) for _ in range(pos.h[c][i])]
        if rng.random() < 0.5:
            rng.shuffle(h)
        while h:
            n = rng.randint(1, len(h))
            items.append(dict(k="P", c=c, q=h[:n]))
            h = h[n:]
    items.append(dict(k="turn", c=pos.t))
    return items


def line(it, turn):
    k = it["k"]
    if k == "blank": return ""
    if k == "V": return "V" + it["s"]
    if k == "N": return "N" + "+-"[it["c"]] + it["s"]
    if k == "$": return "$%s:%s" % (it["key"], it["v"])
    if k == "'": return "'" + it["s"]
    if k == "rate": return "'%s_rate:%s:%d%s" % (["black", "white"][it["c"]], it["s"], it["v"] // 2, ".5" if it["v"] % 2 else ".0")
    if k == "score": return "'** " + (str(it["n"]) if it["isnum"] else "") + it["rest"]
    if k == "summary": return "'summary:%s:%s" % (it["reason"], it["rest"])
    if k == "PI": return "PI" + "".join(obs.csq(x) + obs.CSA_PT[gen.parse_sfen(gen.START).b[x] & 15] for x in it["rem"])
    if k == "rank": return "P%d" % it["r"] + "".join(" * " if not p else "+-"[p > 16] + obs.CSA_PT[p & 15] for p in it["cells"])
    if k == "P": return "P" + "+-"[it["c"]] + "".join(("00" if x < 0 else obs.csq(x)) + obs.CSA_PT[p] for x, p in it["q"])
    if k == "turn": return "+-"[it["c"]]
    if k == "move": return "+-"[turn] + cshogi.move_to_csa(it["m"]) + (",T%d" % it["time"] if it["time"] >= 0 else "") + (",'" + it["cmt"] if it["cmt"] else "")
    if k == "T": return "T%d" % it["n"]
    if k == "end": return it["code"] + it["rest"]
    return it["line"]


def record(rng, bad=False):
    """The items of one record and their lines."""
    pos = start(rng)
    moves = recs.game(rng, pos, recs.length(rng))
    items = []
    if rng.random() < 0.6:
        items.append(dict(k="V", s=rng.choice(["2", "2.2", "3.0"])))
    for c in (0, 1):
        if rng.random() < 0.6:
            items.append(dict(k="N", c=c, s=word(rng)))
    for key in rng.sample(["EVENT", "SITE", "START_TIME", "END_TIME", "OPENING"], rng.choice([0, 0, 1, 2, 4])):
        items.append(dict(k="$", key=key, v=word(rng)))
    free = [lambda: dict(k="blank"), lambda: dict(k="'", s=rng.choice(["", "note", "評価 1", "*x", "** "[:2] + "x", "rating:1"])),
            lambda: dict(k="rate", c=rng.randrange(2), s=rng.choice(["Foo+abc", "x"]), v=rng.randint(0, 9000))]
    for f in free:
        while rng.random() < 0.3:
            items.append(f())
    if rng.random() < 0.1:
        items.append(dict(k="score", isnum=1, n=rng.randint(-500, 500), rest=" 7776FU"))
    sq = squares(rng, pos)
    badat = rng.choice(["move", "move", "pos", "piece", "junk", "early"]) if bad else ""
    if badat == "pos":
        sq.insert(rng.randrange(len(sq)), dict(k="badline", line=rng.choice(["P+00XX", "P-5505", "P1-KY-KE-XX-KI-OU-KI-GI-KE-KY", "PI00FU", "PI55KA", "PX", "P+0505", "P+0155FU", "P-1055FU", "PI5", "P+5"])))
    items += sq
    turn = pos.t
    b = Board(gen.sfen(pos))
    badm = rng.randint(0, len(moves)) if badat in ("move", "piece", "junk") else -1
    for i, m in enumerate(moves + [None]):
        if i == badm:
            legal = {cshogi.move_to_csa(x) for x in b.legal_moves}
            if badat == "junk":
                items.append(dict(k="badline", line=rng.choice(["X", "7776FU", "=", "0", "トーナメント"])))
            elif badat == "piece":
                items.append(dict(k="badmove", line="+-"[turn] + rng.choice(["7776XX", "0055OU", "7776", "1111FU", "0000FU", "9999KI"]) if True else ""))
                if items[-1]["line"][1:] in legal:
                    items.pop()
            else:
                pcs = b.pieces
                c = [x for x in (obs.cand_csa(x, pcs) for x in obs.candidates(rng, b)) if x not in legal]
                if c:
                    items.append(dict(k="badmove", line="+-"[turn] + rng.choice(c)))
        if m is None:
            break
        one = rng.random() < 0.3
        items.append(dict(k="move", m=m, time=rng.choice([-1, 0, 3, 61]) if one else -1, cmt=rng.choice(["", "", "inline", "注"]) if one else ""))
        items[-1]["line"] = line(items[-1], turn)
        turn = 1 - turn
        b.push(m)
        if rng.random() < 0.5:
            items.append(dict(k="T", n=rng.choice([0, 1, 30, 3600])))
        if rng.random() < 0.3:
            num = rng.random() < 0.8
            items.append(dict(k="score", isnum=num, n=rng.choice([0, 1, -1, 123, -4567, 100000]) if num else 0, rest=rng.choice(["", " ", " -3334FU +2726FU", " 7776FU"]) if num else rng.choice(["x 12", "abc", "-", ""])))
        if rng.random() < 0.1:
            items.append(rng.choice(free)())
    if badat == "early":
        first = [j for j, it in enumerate(items) if it["k"] == "turn"][0]
        items.insert(0, dict(k="badline", line=rng.choice(["+7776FU", "%TORYO"])))
    if rng.random() < 0.85:
        items.append(dict(k="end", code=rng.choice(recs.END), rest=rng.choice(["", "", ",T5", ",comment"])))
        if rng.random() < 0.5:
            items.append(dict(k="T", n=rng.choice([0, 9])))
    if rng.random() < 0.15:
        items.append(dict(k="summary", reason=rng.choice(["illegal move", "max_moves", "abnormal", "toryo", "time up"]), rest="Foo win:Bar lose"))
    if rng.random() < 0.2:
        items.append(dict(k="'", s="$END_TIME:2020"))
    if rng.random() < 0.5:
        items.append(dict(k="blank"))
    for it in items:
        if "line" not in it:
            it["line"] = line(it, 0)
    return items


def result(p):
    return dict(exc="", sfen=list(p.sfen), moves=p.moves, times=p.times, scores=p.scores, comments=p.comments, ver=p.version,
                rate=[int(round(x * 2)) for x in p.ratings], comment=p.comment, names=p.names, info=[[k, v] for k, v in p.var_info.items()],
                end=p.endgame, win=recs.WIN[p.win])


def read(s, rng, path):
    k = rng.randrange(4)
    n = 1 if k == 0 else rng.randint(1, 3)
    recd = [record(rng, bad=(k == 0)) for _ in range(n)]
    texts = ["\n".join(it["line"] for it in r) for r in recd]
    out = []
    try:
        if k <= 1:
            out = [result(p) for p in CSA.Parser.parse_str("\n/\n".join(texts))]
        elif k == 2:
            enc = rng.choice(["utf-8", "utf-8", "utf-16"])
            with open(path, "w", encoding=enc, newline="\n") as f:
                f.write("\n/\n".join(texts))
            if rng.random() < 0.5:
                with open(path, encoding=enc) as f:
                    out = [result(p) for p in CSA.Parser.parse_file(f)]
            else:
                out = [result(p) for p in CSA.Parser.parse_file(path, encoding=enc)]
        else:
            p = CSA.Parser()                      # one object for all: nothing may be left over
            for t in texts:
                if rng.random() < 0.5:
                    p.parse_csa_str(t)
                else:
                    with open(path, "w", encoding="utf-8", newline="\n") as f:
                        f.write(t)
                    p.parse_csa_file(path)
                out.append(result(p))
    except (RuntimeError, ValueError, IndexError, KeyError, OSError) as e:
        out = [dict(exc=type(e).__name__)] * n
    for i, r in enumerate(recd):
        s.emit("rstart", fmt="csa")
        for it in r:
            s.emit("item", **it)
        s.emit("parsed", **(out[i] if i < len(out) else dict(exc="missing record")))


def session(s, i, rng, tier):
    path = "r%d.csa" % i
    if i % 2:
        games = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            pos = start(rng)
            games.append((pos, recs.game(rng, pos, recs.length(rng))))
        write(s, rng, path, rng.choice(["utf-8", "utf-8", "utf-16-le"]), games)
    else:
        read(s, rng, path)
    import os
    if os.path.exists(path):
        os.unlink(path)


def odd(ev):
    import refrec
    return refrec.odd(ev)
