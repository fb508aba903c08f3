"""Screening for recordings of the record writers and readers: see ref.py.  It decides nothing."""
import ref
from gen import HAND_ORDER, SLOT, START, parse_sfen
from p14 import GONE, NAME, NAME2, KNUM, KKAN

KK = "一 二 三 四 五 六 七 八 九 十 十一 十二 十三 十四 十五 十六 十七 十八".split()
NAMEB = list(NAME2)
NAMEB[8], NAMEB[14] = "玉", "龍"
S0 = parse_sfen(START)
to = lambda m: m & 127
fr = lambda m: (m >> 7) & 127
isdrop = lambda m: fr(m) >= 81
pro = lambda m: bool(m & 16384)
moved = lambda m: fr(m) - 80 if isdrop(m) else (m >> 16) & 15
sq = lambda s: KNUM[s // 9] + KKAN[s % 9]
per = lambda c, s: s if c == 0 else 80 - s


def loser(code, t):
    return {"%TORYO": t, "%TIME_UP": t, "%ILLEGAL_MOVE": t, "%+ILLEGAL_ACTION": 0, "%-ILLEGAL_ACTION": 1, "%KACHI": 1 - t}.get(code, -1)


win = lambda l: "WHITE" if l == 0 else "BLACK" if l == 1 else "DRAW"


def motion(c, f, t):
    a, b = per(c, f) % 9, per(c, t) % 9
    return "上" if a > b else "引" if a < b else "寄"


def side(c, f, t):
    a, b = per(c, f) // 9, per(c, t) // 9
    return "左" if a > b else "右" if a < b else "直"


def reach(b, s, x):
    """The piece on s could go to x."""
    p = b[s]
    if b[x] and b[x] >> 4 == p >> 4:
        return False
    if x in ref.STEPS[p][s]:
        return True
    for d in ref.SLIDES[p]:
        for y in ref.RAYS[s][d]:
            if y == x:
                return True
            if b[y]:
                break
    return False


def both(b, m, t):
    """Promoting and not promoting are both possible."""
    p = b[fr(m)]
    return (p & 15) <= 6 and (ref.ZONE[t][fr(m)] or ref.ZONE[t][to(m)]) and not ref.DEAD[p][to(m)]


def rivals(b, t, pt, x):
    k = ref.king(b, t)
    att = set(ref.attackers(b, k, 1 - t)) if k >= 0 else set()
    out = []
    for s in range(81):
        if b[s] != pt + 16 * t or not reach(b, s, x):
            continue
        if att and pt != 8:
            q = list(b)
            q[x], q[s] = b[s], 0
            if att & set(ref.attackers(q, k, 1 - t)):
                continue
        out.append(s)
    return out


def qualifier(b, t, m):
    x, f, pt = to(m), fr(m), (m >> 16) & 15
    C = rivals(b, t, pt, x)
    if len(C) < 2:
        return ""
    D = lambda s: motion(t, s, x)
    S = lambda s: side(t, s, x)
    nd = lambda d: sum(1 for s in C if D(s) == d)
    d = D(f)
    if nd(d) == 1:
        return d
    others = [s for s in C if s != f]
    if S(f) != "直":
        rel = S(f)
    elif pt not in (13, 14):
        rel = "" if d == "寄" else "直"
    else:
        L, R = any(S(s) == "左" for s in others), any(S(s) == "右" for s in others)
        rel = "左" if R and not L else "右" if L and not R else ""
    same = [s for s in C if S(s) == rel]
    twins = [s for s in same if D(s) == d]
    rest = [s for s in same if s not in twins]
    if rel and not same:
        return rel
    also = rel == "" or len(twins) > 1 or (d == "上" and rel in ("左", "右") and rest) or any(nd(D(s)) > 1 for s in rest)
    return rel + (d if also else "")


def tail(b, h, t, m, lm):
    if isdrop(m):
        p = fr(m) - 80
        return "打" if any(to(y) == to(m) and not isdrop(y) and (y >> 16) & 15 == p for y in lm) else ""
    return qualifier(b, t, m) + ("成" if pro(m) else "不成" if both(b, m, t) else "")


def ki2(f, m, last):
    tl = tail(f.b, f.h, f.t, m, f.legal())
    same = last and to(last) == to(m)
    return "▲△"[f.t] + ("同" if same else sq(to(m))) + ("　" if same and not tl and moved(m) not in (10, 11, 12) else "") + NAMEB[moved(m)] + tl


def bodmove(f, m, last):
    return "▲△"[f.t] + sq(to(m)) + ("同" if last and to(last) == to(m) else "") + NAMEB[moved(m)] + tail(f.b, f.h, f.t, m, f.legal())


def kif(m, last):
    return ("同　" if last and to(last) == to(m) else sq(to(m))) + NAME[moved(m)] + ("打" if isdrop(m) else ("成" if pro(m) else "") + "(" + ref.csq(fr(m)) + ")")


def clock(ms, total):
    a, b = (ms + 999) // 1000, (total + 999) // 1000
    return "(%2d:%02d/%02d:%02d:%02d)" % (a // 60, a % 60, b // 3600, b % 3600 // 60, b % 60)


G = ["先手", "後手"]
ENDWORD = dict(resign="投了        ", win="入玉勝ち    ", draw="持将棋      ", sennichite="千日手      ", illegal_win="反則勝ち    ", illegal_lose="反則負け    ")


def hand(h):
    return "　".join(NAME[HAND_ORDER[i]] + (KK[h[i] - 1] if h[i] > 1 else "") for i in range(6, -1, -1) if h[i]) or "なし"


def bod(f):
    out = "後手の持駒：" + hand(f.h[1]) + "\n  ９ ８ ７ ６ ５ ４ ３ ２ １\n+---------------------------+\n"
    for r in range(9):
        out += "|" + "".join(("v" if f.b[9 * c + r] > 16 else " ") + NAME[f.b[9 * c + r] & 15] if f.b[9 * c + r] else " ・" for c in range(8, -1, -1)) + "|" + KK[r] + "\n"
    return out + "+---------------------------+\n先手の持駒：" + hand(f.h[0]) + ("\n後手番" if f.t else "")


def san(m):
    p = lambda s: "ihgfedcba"[s // 9] + str(9 - s % 9)
    if isdrop(m):
        return ref.PIECE_CHARS[fr(m) - 80] + "@" + p(to(m))
    return ref.PIECE_CHARS[(m >> 16) & 15] + p(fr(m)) + p(to(m)) + ("+" if pro(m) else "")


SCORE = dict(BLACK="1-0", WHITE="0-1", DRAW="1/2-1/2", none="*")


def pgn(mv, res):
    ws = [("%d. " % (i // 2 + 1) if i % 2 == 0 else "") + san(m) + (" " + SCORE[res] if i == len(mv) - 1 else "") for i, m in enumerate(mv)]
    out, line = "", ""
    for w in ws:
        if not line:
            line = w
        elif len(line) + 1 + len(w) <= 80:
            line += " " + w
        else:
            out += line + "\n"
            line = w
    return out + line + "\n\n"


def wtext(e, S):
    f = S[-1]
    c, t, n = e["call"], f.t, len(S) - 1
    if c == "csa_info":
        start = f.b == S0.b and f.h == S0.h and t == 0
        return (("/\n" if e["append"] else "") + (e["ver"] + "\n" if e["ver"] else "") + ("N+%s\nN-%s\n" % tuple(e["names"]) if e["names"] else "") +
                ("'" + e["cmt"] + "\n" if e["cmt"] else "") + "".join("$%s:%s\n" % tuple(x) for x in e["vars"]) +
                ("PI\n+\n" if e["init"] == "none" or start else ref.csapos(f.b, f.h, t)))
    if c == "csa_move":
        return "+-"[t] + ref.csa(e["m"]) + ("%sT%d" % (e["sep"], e["time"]) if e["time"] >= 0 else "") + (e["sep"] + "'" + e["cmt"] if e["cmt"] else "") + "\n"
    if c == "csa_end":
        return e["code"] + "\n" + ("T%d\n" % e["time"] if e["time"] >= 0 else "")
    if c == "kif_header":
        return ("開始日時：" + e["date"] + "\n" + ("手合割：平手" if e["hcap"] == "none" else bod(f) if e["hcap"] in ("board", "sfen") else "手合割：" + e["hcap"]) +
                "\n先手：%s\n後手：%s\n手数----指手---------消費時間--\n" % tuple(e["names"]))
    if c == "kif_move":
        m = e["m"]
        return "%4d %s%s      %s\n" % (n + 1, kif(m, f.mv), "    " if isdrop(m) else "" if pro(m) else "  ", clock(e["ms"], e["sum"]))
    if c == "kif_info":
        d = 1 - t
        out = "**対局"
        for k, v in e["q"]:
            if k == "time":
                out += " 時間 %02d:%02d.%d" % (v // 60000, v % 60000 // 1000, v % 1000 // 100)
            elif k == "depth":
                out += " 深さ %d" % v
            elif k == "nodes":
                out += " ノード数 %d" % v
            elif k == "cp":
                out += " 評価値 %d" % (v if d == 0 else -v)
            elif k == "mate":
                out += (" +詰" if (v > 0) == (d == 0) else " -詰") + str(abs(v))
        return out + "\n"
    if c == "kif_end":
        r = e["reason"]
        res = dict(resign=G[1 - t] + "の勝ち", win=G[t] + "の入玉勝ち", draw="持将棋", sennichite="千日手", illegal_win=G[t] + "の反則勝ち", illegal_lose=G[t] + "の反則負け")[r]
        return "%4d %s      %s\nまで%d手で%s\n" % (n + 1, ENDWORD[r], clock(e["ms"], e["sum"]), n, res)
    if c == "ki2_header":
        return "開始日時：%s\n手合割：平手\n先手：%s\n後手：%s\n\n" % (e["date"], e["names"][0], e["names"][1])
    if c == "ki2_move":
        return ki2(f, e["m"], f.mv) + "\n" + ("**" + e["cmt"] + "\n" if e["cmt"] else "")
    if c == "ki2_end":
        res = {"%TORYO": G[1 - t] + "の勝ち", "%JISHOGI": "持将棋", "%KACHI": G[t] + "の入玉勝ち", "%SENNICHITE": "千日手", "%+ILLEGAL_ACTION": "後手の反則勝ち",
               "%-ILLEGAL_ACTION": "先手の反則勝ち", "%ILLEGAL_MOVE": G[t] + "の反則負け"}.get(e["code"])
        return "まで%d手で%s\n" % (n, res) if res else ""
    if c == "pgn_tags":
        return '[Event "%s"]\n[Site "%s"]\n[Date "%s"]\n[Round "%d"]\n[White "%s"]\n[Black "%s"]\n[Result "%s"]\n\n' % (
            e["event"], e["site"], e["date"], e["round"], e["names"][0], e["names"][1], SCORE[e["res"]])
    if c == "pgn_moves":
        return pgn([x.mv for x in S[1:]], e["res"])


def show(e, S):
    f = S[-1]
    last = f.mv
    if "bod" in e and e["bod"] != bod(f):
        return "bod"
    if "bodfull" in e:
        want = bod(f)
        if len(S) > 1:
            want += "\n手数＝%d　%s　まで" % (S[-2].ply, bodmove(S[-2], f.mv, S[-2].mv))
        if e["bodfull"] != want:
            return "bodfull"
    if "repr" in e and e["repr"] != "'  9  8  7  6  5  4  3  2  1\n" + ref.csapos(f.b, f.h, f.t):
        return "repr"
    if "svg" in e and sorted(e["svg"]) != sorted([8 - s // 9, s % 9, p] for s, p in enumerate(f.b) if p):
        return "svg"
    if "marks" in e:
        m = e["marked"]
        xy = lambda s: [8 - s // 9, s % 9]
        if e["marks"] != ([] if not m else [xy(to(m))] + ([] if isdrop(m) else [xy(fr(m))])):
            return "marks"
    if "svgh" in e:
        for c in (0, 1):
            want = []
            for i, n in enumerate(f.h[c]):
                if n:
                    want += ([KK[n - 11], "十"] if n >= 11 else [KK[n - 1]] if n >= 2 else []) + [NAME[HAND_ORDER[i]]]
            if e["svgh"][c] != want + ["手", "先後"[c], "☗☖"[c]]:
                return "svgh"
    if "ki2" in e:
        if len({x["s"] for x in e["ki2"]}) != len(e["ki2"]) or any(x["back"] != [x["m"]] or x["s"] != ki2(f, x["m"], last) for x in e["ki2"]):
            return "ki2"
    if any(x["s"] != kif(x["m"], last) for x in e.get("kif", ())):
        return "kif"
    if any(x["s"] != bodmove(f, x["m"], last) for x in e.get("bodm", ())):
        return "bodm"
    if any(x["s"] != san(x["m"]) for x in e.get("san", ())):
        return "san"
    return ""


class Reader:
    def __init__(self, fmt):
        self.fmt, self.init, self.bad, self.stop = fmt, fmt != "csa", False, False
        self.p0 = (list(S0.b), [list(x) for x in S0.h], 0)
        self.blk = ([0] * 81, [[0] * 7, [0] * 7])
        self.cur = self.p0[2]
        self.mv, self.ti, self.sc, self.cm, self.cmt, self.info = [], [], [], [], [], []
        self.ver, self.rate, self.names = "", [0, 0], ["", ""] if fmt == "csa" else ["None", "None"]
        self.date, self.end, self.win = "None", "None" if fmt == "kif" else "", "DRAW" if fmt == "csa" else "None"

    def move(self, m):
        self.mv.append(m)
        self.cur = 1 - self.cur

    def csa(self, e):
        k = e["k"]
        if k == "V":
            self.ver = "V" + e["s"]
        elif k == "N":
            self.names[e["c"]] = e["s"]
        elif k == "$":
            self.info.append([e["key"], e["v"]])
        elif k == "'":
            self.cmt.append("'" + e["s"] + "\n")
        elif k == "rate":
            self.rate[e["c"]] = e["v"]
        elif k == "score":
            if not self.mv:
                self.cmt.append(e["line"] + "\n")
            else:
                if e["isnum"]:
                    self.sc[-1] = e["n"]
                self.cm[-1] = (str(e["n"]) if e["isnum"] else "") + e["rest"]
        elif k == "summary":
            self.cmt.append(e["line"] + "\n")
            if e["reason"] == "illegal move":
                self.end, self.win = "%ILLEGAL_MOVE", win(self.cur)
            elif e["reason"] in ("max_moves", "abnormal"):
                self.end = "%JISHOGI" if e["reason"] == "max_moves" else "%ERROR"
        elif k == "PI":
            self.blk = ([0 if x in e["rem"] else S0.b[x] for x in range(81)], self.blk[1])
        elif k == "rank":
            for f in range(9):
                self.blk[0][9 * f + e["r"] - 1] = e["cells"][8 - f]
        elif k == "P":
            for x, p in e["q"]:
                if x < 0:
                    self.blk[1][e["c"]][SLOT[p]] += 1
                else:
                    self.blk[0][x] = p + 16 * e["c"]
        elif k == "turn":
            if not self.init:
                self.init = True
                self.p0 = (self.blk[0], self.blk[1], e["c"])
                self.cur = e["c"]
        elif k == "move":
            self.move(e["m"])
            self.ti.append(max(e["time"], 0))
            self.sc.append(0)
            self.cm.append(e["cmt"])
        elif k == "T":
            if self.end:
                self.ti.append(e["n"])
            elif self.ti:
                self.ti[-1] = e["n"]
        elif k == "end":
            self.end = e["code"]
            if loser(e["code"], self.cur) >= 0:
                self.win = win(loser(e["code"], self.cur))
        elif k in ("badmove", "badline"):
            self.bad = True

    def jp(self, e):
        k = e["k"]
        if self.stop:
            return
        if k == "comment":
            if not self.mv:
                self.cmt.append("*" * (e["stars"] - 1) + e["s"])
            else:
                self.cm += ["None"] * (len(self.mv) - len(self.cm) - 1)
                if len(self.cm) == len(self.mv):
                    self.cm[-1] += "\n" + e["s"]
                else:
                    self.cm.append(e["s"])
        elif k == "kv":
            self.info.append([e["key"], e["v"]])
        elif k == "name":
            self.names[0 if e["key"] in ("先手", "下手") else 1] = e["v"]
        elif k == "hcap":
            b = list(S0.b)
            g = GONE[e["v"]]
            for i in range(0, len(g), 2):
                b[9 * (int(g[i]) - 1) + "abcdefghi".index(g[i + 1])] = 0
            self.cur = 0 if e["v"] == "平手" else 1
            self.p0 = (b, self.p0[1], self.cur)
        elif k == "date":
            self.date = e["means"]
            if self.fmt == "kif":
                self.info.append(["開始日時", e["v"]])
        elif k == "move":
            self.move(e["m"])
            self.clock(e)
        elif k == "endmove":
            self.clock(e)
        elif k == "moves":
            for x in e["q"]:
                self.move(x["m"])
        elif k == "result":
            self.stop = True
            if not e["side"]:
                self.win, self.end = {"千日手": ("DRAW", "%SENNICHITE"), "持将棋": ("DRAW", "%JISHOGI"), "中断": ("None", "%CHUDAN")}[e["what"]]
            else:
                c = 0 if e["side"] in ("先", "下") else 1
                self.win, self.end = {"勝ち": (win(1 - c), "%TORYO"), "入玉勝ち": (win(1 - c), "%KACHI"), "反則勝ち": (win(1 - c), "%-ILLEGAL_ACTION" if c == 0 else "%+ILLEGAL_ACTION"),
                                      "反則負け": (win(c), "%ILLEGAL_MOVE")}[e["what"]]

    def clock(self, e):
        q = e["own"]
        if q:
            self.ti.append(q[0] * 60 + q[1] if len(q) == 2 else q[0] * 3600 + q[1] * 60 + q[2])

    def parsed(self, e):
        if self.bad:
            return e["exc"] == ""
        if e["exc"]:
            return True
        cm = self.cm + ["None"] * (len(self.mv) - len(self.cm)) if self.fmt == "ki2" else self.cm
        got = parse_sfen("".join(e["sfen"]))
        return ((got.b, got.h, got.t, got.ply) != self.p0 + (1,) or e["moves"] != self.mv or (self.fmt != "ki2" and e["times"] != self.ti) or
                (self.fmt == "csa" and (e["scores"] != self.sc or e["ver"] != self.ver or e["rate"] != self.rate)) or e["comments"] != cm or
                e["comment"] != ("" if self.fmt == "csa" else "\n").join(self.cmt) or e["names"] != self.names or e["info"] != self.info or
                (self.fmt != "csa" and e["date"] != self.date) or e["end"] != self.end or e["win"] != self.win)


def odd(ev):
    S, rd = None, None
    for e in ev:
        op = e["op"]
        if op == "start":
            S = [ref.Frame(e["ab"], e["ah"], e["at"], e["aply"], 0, 0)]
        elif op == "w":
            if e["call"] != "play" and e["out"] != wtext(e, S):
                return e["call"]
            if "m" in e:
                S = ref._push(S, e["m"])
        elif op == "show":
            k = show(e, S)
            if k:
                return k
        elif op == "rstart":
            rd = Reader(e["fmt"])
        elif op == "item":
            (rd.csa if rd.fmt == "csa" else rd.jp)(e)
        elif op == "parsed":
            if rd.parsed(e):
                return "parsed"
        else:
            return op
    return ""
