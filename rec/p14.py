"""KIF records: what the exporter writes, and what the parser reads."""
import os

import cshogi
from cshogi import Board, KIF
import gen
import recs
from recs import word

HANDICAPS = ["平手", "香落ち", "右香落ち", "角落ち", "飛車落ち", "飛香落ち", "二枚落ち", "三枚落ち", "四枚落ち", "五枚落ち", "左五枚落ち", "六枚落ち", "八枚落ち", "十枚落ち"]
GONE = {"平手": "", "香落ち": "1a", "右香落ち": "9a", "角落ち": "2b", "飛車落ち": "8b", "飛香落ち": "8b1a", "二枚落ち": "8b2b", "三枚落ち": "8b2b1a", "四枚落ち": "8b2b1a9a",
        "五枚落ち": "8b2b1a9a8a", "左五枚落ち": "8b2b1a9a2a", "六枚落ち": "8b2b1a9a2a8a", "八枚落ち": "8b2b1a9a2a8a3a7a", "十枚落ち": "8b2b1a9a2a8a3a7a4a6a"}
KNUM, KKAN = "１２３４５６７８９", "一二三四五六七八九"
NAME = ["", "歩", "香", "桂", "銀", "角", "飛", "金", "玉", "と", "杏", "圭", "全", "馬", "龍"]
NAME2 = ["", "歩", "香", "桂", "銀", "角", "飛", "金", "王", "と", "成香", "成桂", "成銀", "馬", "竜"]


def handicap(h):
    p = gen.parse_sfen(gen.START)
    g = GONE[h]
    for i in range(0, len(g), 2):
        p.b[9 * (int(g[i]) - 1) + "abcdefghi".index(g[i + 1])] = 0
    p.t = 0 if h == "平手" else 1
    return p


def write(s, rng, path, enc, ex=None):
    h = rng.choice(["none", "none", "board", "sfen"] + rng.sample(HANDICAPS, 4))
    pos = handicap(h) if h in GONE else gen.parse_sfen(gen.START) if h == "none" else gen.any_position(rng)
    pos.ply = rng.choice([1, 1, 30]) if h in ("board", "sfen") else 1
    if h in ("board", "sfen") and rng.random() < 0.3:
        pos = gen.parse_sfen(gen.START)
    t = recs.Tail(path, enc)
    if ex is None:
        ex = KIF.Exporter(path) if rng.random() < 0.5 else KIF.Exporter()
        if ex.kifu is None:
            ex.open(path)
    else:
        ex.open(path)           # the same object again: nothing of the last game may show
    names, d = [word(rng, recs.CP932), word(rng, recs.CP932)], recs.date(rng)
    s.emit("start", **recs.at(pos))
    ex.header(names, starttime=d, handicap=None if h == "none" else Board(gen.sfen(pos)) if h == "board" else "sfen " + gen.sfen(pos) if h == "sfen" else h)
    s.emit("w", call="kif_header", names=names, date=recs.dtext(d), hcap=h, out=t.new(ex.kifu))
    total = [0, 0]
    for i, m in enumerate(recs.game(rng, pos, recs.length(rng))):
        ms = rng.choice([0, 0, 1000, 125, 59875, 60000, 5999000, 6000000, rng.randrange(0, 4000) * 125])
        total[i % 2] += ms
        ex.move(m, ms / 1000 if ms % 1000 else ms // 1000, total[i % 2] / 1000)
        s.emit("w", call="kif_move", m=m, ms=ms, sum=total[i % 2], out=t.new(ex.kifu))
        if rng.random() < 0.3:
            q = []
            for k in rng.sample(["time", "depth", "nodes", "cp", "mate"], rng.randint(1, 4)):
                if k == "mate" and any(x[0] == "cp" for x in q) or k == "cp" and any(x[0] == "mate" for x in q):
                    continue
                v = (rng.randrange(0, 3000) * 100 if k == "time" else rng.choice([1, 9, 10, 27]) if k == "depth" else rng.randrange(10**6) if k == "nodes"
                     else rng.choice([0, 5, -5, 150, -2345]) if k == "cp" else rng.choice([1, 3, -2, 11, -12]))
                q.append([k, v])
            txt = "info"
            for k, v in q:
                txt += " " + ("score cp %d" % v if k == "cp" else "score mate %s" % (("+%d" if rng.random() < 0.5 and v > 0 else "%d") % v) if k == "mate" else "%s %d" % (k, v))
                if rng.random() < 0.2:
                    txt += " multipv 1"
            if rng.random() < 0.5:
                txt += " pv 7g7f 3c3d"
            ex.info(txt)
            s.emit("w", call="kif_info", q=q, out=t.new(ex.kifu))
    r = rng.choice(["resign", "win", "draw", "sennichite", "illegal_win", "illegal_lose"])
    ms = rng.choice([0, 1000, 61000])
    ex.end(r, ms // 1000, total[0] / 1000)
    s.emit("w", call="kif_end", reason=r, ms=ms, sum=total[0], out=t.new(ex.kifu))
    ex.close()
    return ex


def clock(rng, it):
    if rng.random() < 0.25:
        it.update(own=[], tot=[], lead="")
    else:
        it.update(own=rng.choice([[rng.randrange(100), rng.randrange(60)], [rng.randrange(3), rng.randrange(60), rng.randrange(60)], [0, 0], [0, 0, 0], [0, 59], [60, 0]]),
                  tot=[rng.randrange(30), rng.randrange(60), rng.randrange(60)], lead=rng.choice(["", " ", "  "]))


def ctext(it):
    p = lambda q: str(q[0]) + "".join(":%02d" % x for x in q[1:])
    return "(" + it["lead"] + p(it["own"]) + "/" + p(it["tot"]) + ")" if it["own"] else ""


def piece(m, alt):
    pt = gen.mv_from(m) - 80 if gen.mv_from(m) >= 81 else gen.mv_pt(m)
    return (NAME2 if alt else NAME)[pt]


def header(rng, fmt, h):
    items = []
    if rng.random() < 0.7:
        d = recs.date(rng)
        if rng.random() < 0.3:
            d = d.replace(second=0)
            v = d.strftime("%Y/%m/%d %H:%M")
        else:
            v = d.strftime("%Y/%m/%d %H:%M:%S")
        if rng.random() < 0.1:
            d, v = None, rng.choice(["昨日", "2020/13/40", ""])
        items.append(dict(k="date", v=v, means=recs.dtext(d)))
    if h != "平手" or rng.random() < 0.7:
        items.append(dict(k="hcap", v=h, trail=rng.choice(["", "", "　", "　　"])))
    for key in rng.sample(["棋戦", "場所", "持ち時間", "備考", "終了日時"], rng.choice([0, 1, 3])):
        items.append(dict(k="kv", key=key, v=rng.choice(["x", "名人戦", "各10分", "a：b", ""]), trail=rng.choice(["", "　"])))
    for c, keys in ((0, ["先手", "下手"]), (1, ["後手", "上手"])):
        if rng.random() < 0.8:
            items.append(dict(k="name", key=rng.choice(keys), v=word(rng, recs.CP932), trail=rng.choice(["", "", "　"])))
    for _ in range(rng.choice([0, 0, 1, 2])):
        items.append(dict(k="comment", stars=rng.choice([1, 1, 2]), s=rng.choice(["まえがき", "x", "", "a：b"])))
    if rng.random() < 0.3:
        items.append(dict(k="noise", line=rng.choice(["先手の持駒：なし", "後手の持駒：飛　角　金二　歩十八", "# ---- KIF ----", "下手の持駒：歩", "上手の持駒：金　銀"])))
    if rng.random() < 0.5:
        rng.shuffle(items)
    return items


def result_item(rng, n, fmt):
    what = rng.choice(["千日手", "持将棋", "中断", "勝ち", "勝ち", "入玉勝ち", "反則勝ち", "反則負け"])
    side = "" if what in ("千日手", "持将棋", "中断") else rng.choice(["先", "後", "下", "上"])
    return dict(k="result", n=n, what=what, side=side, pre=rng.choice(["まで", "まで", "　まで", "まで、"]) if fmt == "kif" else "まで")


def line(it):
    k = it["k"]
    if k == "blank": return ""
    if k == "comment": return "*" * it["stars"] + it["s"]
    if k in ("kv", "name"): return it["key"] + "：" + it["v"] + it["trail"]
    if k == "hcap": return "手合割：" + it["v"] + it["trail"]
    if k == "date": return "開始日時：" + it["v"]
    if k == "endmove": return "%4d %s%s%s" % (it["n"], it["word"], it["sp"], ctext(it))
    if k == "result": return it["pre"] + "%d手で" % it["n"] + (it["side"] + "手の" if it["side"] else "") + it["what"]
    if k == "move":
        m = it["m"]
        drop = gen.mv_from(m) >= 81
        to = gen.mv_to(m)
        tgt = "同　" if it["same"] else KNUM[to // 9] + KKAN[to % 9]
        f = gen.mv_from(m)
        tail = ("(00)" if it["zero"] else "打") if drop else ("成" if gen.mv_pro(m) else "") + "(%d%d)" % (f // 9 + 1, f % 9 + 1)
        return "%4d %s%s%s%s%s%s" % (it["n"], tgt, piece(m, it["alt"]), tail, it["sp"], ctext(it), it["rest"])
    return it["line"]


def comments(rng, items, p):
    while rng.random() < p:
        items.append(dict(k="comment", stars=rng.choice([1, 1, 2]), s=rng.choice(["好手", "x y", "", "*", "対局 時間 00:01.0", "a：b", "&"])))
        if items[-1]["s"][:1] == "*":
            items[-1]["stars"] = 2


def record(rng):
    h = rng.choice(["平手", "平手"] + HANDICAPS)
    pos = handicap(h)
    items = header(rng, "kif", h)
    if rng.random() < 0.8:
        items.append(dict(k="noise", line="手数----指手---------消費時間--"))
    last = None
    moves = recs.game(rng, pos, recs.length(rng))
    for i, m in enumerate(moves):
        it = dict(k="move", n=i + 1, m=m, same=int(last is not None and gen.mv_to(m) == gen.mv_to(last) and rng.random() < 0.9), alt=rng.randrange(2),
                  zero=int(gen.mv_from(m) >= 81 and rng.random() < 0.2), sp=rng.choice(["", " ", "   ", "      "]), rest=rng.choice(["", "", "+"]))
        clock(rng, it)
        if not it["own"]:
            it["rest"] = ""
        items.append(it)
        last = m
        comments(rng, items, 0.15)
        if rng.random() < 0.05:
            items.append(rng.choice([dict(k="blank"), dict(k="noise", line="&しおり")]))
    if rng.random() < 0.7:
        it = dict(k="endmove", n=len(moves) + 1, word=rng.choice(["中断", "投了", "持将棋", "千日手", "詰み", "切れ負け", "反則勝ち", "反則負け", "入玉勝ち"]), sp=rng.choice(["", " ", "        "]))
        clock(rng, it)
        items.append(it)
    if rng.random() < 0.8:
        items.append(result_item(rng, len(moves), "kif"))
        if rng.random() < 0.3:           # variations after the result are not part of the game
            items += [dict(k="blank"), dict(k="noise", line="変化：1手"), dict(k="noise", line="   1 ７六歩(77)   ( 0:01/00:00:01)")]
    return items


def result(p, fmt):
    d = dict(exc="", sfen=list(p.sfen), moves=p.moves, comments=p.comments, comment=p.comment, names=p.names,
             info=[[k, v] for k, v in p.var_info.items()], date=recs.dtext(p.starttime), end=p.endgame, win=recs.WIN[p.win])
    if fmt == "kif":
        d["times"] = p.times
    return d


def read(s, rng, items, fmt, mod, name):
    for it in items:
        it["line"] = line(it) if "line" not in it else it["line"]
    eol = rng.choice(["\n", "\n", "\r\n", "\r"])
    text = eol.join(it["line"] for it in items) + rng.choice(["", eol])
    exts = [".kif", ".kifu"] if fmt == "kif" else [".ki2"]
    ext = rng.choice(exts)
    enc = "utf-8" if ext == ".kifu" else "cp932"
    s.emit("rstart", fmt=fmt)
    for it in items:
        s.emit("item", **it)
    path = name + ext
    try:
        if rng.random() < 0.5:
            with open(path, "w", encoding=enc, newline="") as f:
                f.write(text)
            p = mod.Parser.parse_file(path)
            os.unlink(path)
        else:
            p = mod.Parser.parse_str(text)
        d = result(p, fmt)
    except (KIF.ParserException, ValueError, KeyError, IndexError, TypeError, AssertionError, AttributeError, RuntimeError) as e:
        d = dict(exc=type(e).__name__)
    s.emit("parsed", **d)


def session(s, i, rng, tier):
    if i % 2:
        ex = None
        for _ in range(rng.choice([1, 1, 2, 3])):
            enc = rng.choice(["utf-8", "cp932"])
            path = "r%d.kif%s" % (i, "u" if enc == "utf-8" else "")
            ex = write(s, rng, path, enc, ex)
            os.unlink(path)
    else:
        read(s, rng, record(rng), "kif", KIF, "r%d" % i)


def odd(ev):
    import refrec
    return refrec.odd(ev)
