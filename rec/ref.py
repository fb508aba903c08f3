"""Screening of recorded sessions: which of them is worth the specification's time.

A recorder may be run many more times than the specification can judge.  `odd` looks at the events of one session with a
small, fast set of rules of its own and says whether something in it looks strange.  It decides nothing: a session it
points at is handed to the specification, whose verdict is the only one, and a session it passes over counts for nothing."""
from gen import HAND_ORDER, SLOT, STEP, SLIDE, PIECE_CHARS

DIR8 = [(0, -1), (0, 1), (-1, 0), (1, 0), (-1, -1), (1, -1), (-1, 1), (1, 1)]


def _ray(s, d):
    f, r = s // 9 + d[0], s % 9 + d[1]
    out = []
    while 0 <= f < 9 and 0 <= r < 9:
        out.append(9 * f + r)
        f, r = f + d[0], r + d[1]
    return tuple(out)


RAYS = [[_ray(s, d) for d in DIR8] for s in range(81)]
ALIGNED = [frozenset(x for ray in RAYS[s] for x in ray) for s in range(81)]


def _steps(p, s):
    c, pt = p >> 4, p & 15
    g = -1 if c else 1
    return tuple(9 * (s // 9 + a * g) + s % 9 + e * g for a, e in STEP.get(pt, ())
                 if 0 <= s // 9 + a * g < 9 and 0 <= s % 9 + e * g < 9)


PIECES = [p for p in list(range(1, 15)) + list(range(17, 31))]
STEPS = [None] * 31
SLIDES = [()] * 31
for _p in PIECES:
    STEPS[_p] = [_steps(_p, s) for s in range(81)]
    _g = -1 if _p > 16 else 1
    SLIDES[_p] = tuple(DIR8.index((a * _g, e * _g)) for a, e in SLIDE.get(_p & 15, ()))
# looking outwards from an attacked square in direction d: who attacks it from next to it, who from further away
NEAR = [[frozenset(p for p in PIECES if p >> 4 == c and ((-d[0] * (1 - 2 * c), -d[1] * (1 - 2 * c)) in STEP.get(p & 15, ()) or
                                                        (-d[0] * (1 - 2 * c), -d[1] * (1 - 2 * c)) in SLIDE.get(p & 15, ()))) for d in DIR8] for c in (0, 1)]
FAR = [[frozenset(p for p in PIECES if p >> 4 == c and (-d[0] * (1 - 2 * c), -d[1] * (1 - 2 * c)) in SLIDE.get(p & 15, ())) for d in DIR8] for c in (0, 1)]
KN = [[_steps(19 if c == 0 else 3, s) for s in range(81)] for c in (0, 1)]      # where a knight of colour c attacks s from
DEAD = [[False] * 81 for _ in range(31)]
for _s in range(81):
    for _c in (0, 1):
        _r = _s % 9 if _c == 0 else 8 - _s % 9
        for _t in (1, 2):
            DEAD[_t + 16 * _c][_s] = _r == 0
        DEAD[3 + 16 * _c][_s] = _r <= 1
ZONE = [[s % 9 <= 2 for s in range(81)], [s % 9 >= 6 for s in range(81)]]


def attacked(b, s, c):
    near, far = NEAR[c], FAR[c]
    for d, ray in enumerate(RAYS[s]):
        first = True
        for x in ray:
            p = b[x]
            if p:
                if p in (near[d] if first else far[d]):
                    return True
                break
            first = False
    kn = 3 + 16 * c
    for x in KN[c][s]:
        if b[x] == kn:
            return True
    return False


def king(b, c):
    try:
        return b.index(24 if c else 8)
    except ValueError:
        return -1


def in_check(b, c):
    k = king(b, c)
    return k >= 0 and attacked(b, k, 1 - c)


def board_moves(b, t, first=False):
    k = king(b, t)
    chk = k >= 0 and attacked(b, k, 1 - t)
    near = ALIGNED[k] if k >= 0 else ()
    zone = ZONE[t]
    out = []
    for s in range(81):
        p = b[s]
        if not p or p >> 4 != t:
            continue
        tos = [x for x in STEPS[p][s] if not b[x] or b[x] >> 4 != t]
        for d in SLIDES[p]:
            for x in RAYS[s][d]:
                q = b[x]
                if not q:
                    tos.append(x)
                else:
                    if q >> 4 != t:
                        tos.append(x)
                    break
        test = k >= 0 and (chk or s == k or s in near)
        pt = p & 15
        for x in tos:
            q = b[x]
            if test:
                b[x], b[s] = p, 0
                bad = attacked(b, x if s == k else k, 1 - t)
                b[x], b[s] = q, p
                if bad:
                    continue
            if first:
                return [1]
            m = x + 128 * s + 65536 * pt + 1048576 * (q & 15)
            if not DEAD[p][x]:
                out.append(m)
            if pt <= 6 and (zone[s] or zone[x]):
                out.append(m + 16384)
    return out


def pawn_mates(b, t, s):
    f = s - 1 if t == 0 else s + 1
    if not 0 <= f < 81 or f // 9 != s // 9 or b[f] != (24 if t == 0 else 8):
        return False
    b[s] = 1 + 16 * t
    r = not board_moves(b, 1 - t, True)
    b[s] = 0
    return r


def drops(b, hand, t, first=False):
    if not any(hand):
        return []
    k = king(b, t)
    chk = k >= 0 and attacked(b, k, 1 - t)
    sq = []
    for s in range(81):
        if b[s]:
            continue
        if chk:
            if s not in ALIGNED[k]:
                continue
            b[s] = 7 + 16 * t
            bad = attacked(b, k, 1 - t)
            b[s] = 0
            if bad:
                continue
        sq.append(s)
    out = []
    files = {x // 9 for x in range(81) if b[x] == 1 + 16 * t} if hand[0] else ()
    for i, n in enumerate(hand):
        if not n:
            continue
        pt = HAND_ORDER[i]
        dead = DEAD[pt + 16 * t]
        for s in sq:
            if dead[s] or (pt == 1 and (s // 9 in files or pawn_mates(b, t, s))):
                continue
            out.append(s + 128 * (80 + pt))
            if first:
                return out
    return out


def legal(b, h, t):
    return board_moves(b, t) + drops(b, h[t], t)


def stuck(b, h, t):
    return not board_moves(b, t, True) and not drops(b, h[t], t, True)


def play(b, h, t, m):
    b, h = list(b), [list(h[0]), list(h[1])]
    to, fr = m & 127, (m >> 7) & 127
    if fr >= 81:
        b[to] = fr - 80 + 16 * t
        h[t][SLOT[fr - 80]] -= 1
    else:
        q = b[to] & 15
        if q:
            h[t][SLOT[q - 8 if q > 8 else q]] += 1
        b[to] = b[fr] + (8 if m & 16384 else 0)
        b[fr] = 0
    return b, h, 1 - t


def mated(b, h, t):
    return in_check(b, t) and stuck(b, h, t)


def declare(b, h, t):
    if in_check(b, t) or king(b, t) < 0 or not ZONE[t][king(b, t)]:
        return False
    z = [b[s] & 15 for s in range(81) if ZONE[t][s] and b[s] and b[s] >> 4 == t and b[s] & 15 != 8]
    pts = sum(5 if p in (5, 6, 13, 14) else 1 for p in z) + sum(n * (5 if i > 4 else 1) for i, n in enumerate(h[t]))
    return len(z) >= 10 and pts >= (28 if t == 0 else 27)


def sfen(b, h, t, ply):
    rows = []
    for r in range(9):
        row, n = "", 0
        for f in range(8, -1, -1):
            p = b[9 * f + r]
            if not p:
                n += 1
                continue
            if n:
                row += str(n)
                n = 0
            c = PIECE_CHARS[p & 15]
            row += c.lower() if p > 16 else c
        rows.append(row + (str(n) if n else ""))
    hand = ""
    for c in (0, 1):
        for pt in (6, 5, 7, 4, 3, 2, 1):
            n = h[c][SLOT[pt]]
            if n:
                hand += (str(n) if n > 1 else "") + (PIECE_CHARS[pt].lower() if c else PIECE_CHARS[pt])
    return "%s %s %s %d" % ("/".join(rows), "bw"[t], hand or "-", ply)


# --- texts, codes, planes -----------------------------------------------------------------------------------------------
CSA_PT = "FU KY KE GI KA HI KI OU TO NY NK NG UM RY".split()
FULL = (18, 4, 4, 4, 4, 2, 2)
PRE = {"hcp": ["10", "1100", "1110", "1101", "111110", "111111", "11110"], "psf": ["10", "1100", "1101", "1110", "111110", "111111", "11110"]}
HANDPRE = {"hcp": ["00", "1000", "1100", "1010", "1110", "111110", "111111"], "psf": ["00", "1000", "1010", "1100", "1110", "111100", "111110"]}
BOX = {"hcp": ["010", "10010", "11010", "10110", "10111", "1111000", "1111010"], "psf": ["010", "10010", "10110", "11010", "11011", "1111010", "1111110"]}
BOOK = None


def usq(s):
    return "123456789"[s // 9] + "abcdefghi"[s % 9]


def csq(s):
    return "123456789"[s // 9] + "123456789"[s % 9]


def usi(m):
    fr = (m >> 7) & 127
    if fr >= 81:
        return PIECE_CHARS[fr - 80] + "*" + usq(m & 127)
    return usq(fr) + usq(m & 127) + ("+" if m & 16384 else "")


def csa(m):
    fr = (m >> 7) & 127
    if fr >= 81:
        return "00" + csq(m & 127) + CSA_PT[fr - 81]
    return csq(fr) + csq(m & 127) + CSA_PT[((m >> 16) & 15) - 1 + (8 if m & 16384 else 0)]


def csapos(b, h, t):
    out = ""
    for r in range(9):
        out += "P%d" % (r + 1)
        for f in range(8, -1, -1):
            p = b[9 * f + r]
            out += ("-" if p > 16 else "+") + CSA_PT[(p & 15) - 1] if p else " * "
        out += "\n"
    for c in (0, 1):
        for i in range(7):
            if h[c][i]:
                out += "P" + "+-"[c] + ("00" + CSA_PT[HAND_ORDER[i] - 1]) * h[c][i] + "\n"
    return out + "+-"[t] + "\n"


def pack(b, h, t, kind):
    k0, k1 = king(b, 0), king(b, 1)
    if k0 < 0 or k1 < 0:
        return []
    q = str(t) + "{:07b}".format(k0)[::-1] + "{:07b}".format(k1)[::-1]
    left = list(FULL)
    for p in b:
        pt = p & 15
        if not p:
            q += "0"
        elif pt != 8:
            d = pt - 8 if pt > 8 else pt
            c, pr = str(p >> 4), "1" if pt > 8 else "0"
            q += PRE[kind][d - 1] + (c if d == 7 else c + pr if kind == "hcp" else pr + c)
            left[SLOT[d]] -= 1
    for c in (0, 1):
        for i in range(7):
            q += (HANDPRE[kind][i] + str(c)) * h[c][i]
            left[i] -= h[c][i]
    for i in range(7):
        q += BOX[kind][i] * left[i]
    q = q[:256].ljust(256, "0")
    return [int(q[8 * i:8 * i + 8][::-1], 2) for i in range(32)]


def book(b, h, t):
    global BOOK
    if BOOK is None:
        import json
        import os
        d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "bookkeys.json")))
        one = lambda x: x[0] << 48 | x[1] << 32 | x[2] << 16 | x[3]
        BOOK = ([[one(y) for y in x] for x in d["piece"]], [[one(y) for y in x] for x in d["hand"]], one(d["turn"]))
    k = BOOK[2] if t else 0
    for s in range(81):
        if b[s]:
            k ^= BOOK[0][b[s]][s]
    for i in range(7):
        k ^= BOOK[1][i][h[t][i]]
    return [(k >> 48) & 0xffff, (k >> 32) & 0xffff, (k >> 16) & 0xffff, k & 0xffff]


def rot(b, h, t):
    return [p and (p - 16 if p > 16 else p + 16) for p in reversed(b)], [h[1], h[0]], 1 - t


def label(m, c):
    if c:
        m = turned(m)
    to, fr = m & 127, (m >> 7) & 127
    if fr >= 81:
        return 81 * (20 + fr - 81) + to
    dx, dy = to // 9 - fr // 9, to % 9 - fr % 9
    if dy == -2 and abs(dx) == 1:
        d = 8 if dx == 1 else 9
    elif dy < 0:
        d = 0 if dx == 0 else 1 if dx > 0 else 2
    elif dy == 0:
        d = 3 if dx > 0 else 4
    else:
        d = 5 if dx == 0 else 6 if dx > 0 else 7
    return 81 * (d + (10 if m & 16384 else 0)) + to


def turned(m):
    to, fr = m & 127, (m >> 7) & 127
    return m - to + 80 - to + (0 if fr >= 81 else 128 * (80 - 2 * fr))


def attr(m):
    to, fr = m & 127, (m >> 7) & 127
    drop = fr >= 81
    m16 = m & 65535
    psv = to + 128 * (fr - 80 if drop else fr) + (16384 if drop else 0) + (32768 if m & 16384 else 0)
    return [m, to, fr, (m >> 20) & 15, int(bool(m & 16384)), int(drop), (m >> 16) & 15, SLOT[fr - 80] if drop else -1, m16, psv, m16,
            turned(m), label(m, 0), label(m, 1), m, m, m]


def attackers(b, s, c):
    out = []
    for d, ray in enumerate(RAYS[s]):
        for j, x in enumerate(ray):
            p = b[x]
            if p:
                if p in (FAR if j else NEAR)[c][d]:
                    out.append(x)
                break
    return out + [x for x in KN[c][s] if b[x] == 3 + 16 * c]


def feat1(b, h, t):
    if t:
        b, h, _ = rot(b, h, t)
    out = set()
    for s in range(81):
        if b[s]:
            out.add((31 * (b[s] >> 4) + (b[s] & 15) - 1) * 81 + s)
        for c in (0, 1):
            a = attackers(b, s, c)
            for x in a:
                out.add((31 * c + 14 + (b[x] & 15) - 1) * 81 + s)
            for k in range(min(3, len(a))):
                out.add((31 * c + 28 + k) * 81 + s)
    return out


def feat2(b, h, t):
    out = set()
    for c in (0, 1):
        for i, (cap, base) in enumerate(zip((8, 4, 4, 4, 4, 2, 2), (0, 8, 12, 16, 20, 24, 26))):
            out.update(28 * (c ^ t) + base + k for k in range(min(h[c][i], cap)))
    if in_check(b, t):
        out.add(56)
    return out


def nyu_planes(b, h, t):
    """The planes that must be set, and those that may."""
    must, may = set(), set()
    for c in (0, 1):
        base = 57 + 31 * (c ^ t)
        z = [b[s] & 15 for s in range(81) if ZONE[c][s] and b[s] and b[s] >> 4 == c and b[s] & 15 != 8]
        rest = 10 - len(z)
        pt = 28 - c - sum(5 if p in (5, 6, 13, 14) else 1 for p in z) - sum(n * (5 if i > 4 else 1) for i, n in enumerate(h[c]))
        if king(b, c) >= 0 and ZONE[c][king(b, c)]:
            must.add(base)
        (must if rest >= 0 else may).add(base + 1 + max(rest, 0)) if rest <= 9 else None
        (must if pt >= 0 else may).add(base + 11 + max(pt, 0)) if pt <= 19 else None
    return must, may


def piece_planes(b):
    return {(14 * (p >> 4) + (p & 15) - 1) * 81 + s for s, p in enumerate(b) if p}


def texts(f, v, text):
    """An accepted text is that of the move it became; a refused one is that of no legal move."""
    known = {text(m) for m in f.legal()}
    for x in v:
        if x["r"]:
            if x["r"] not in f.legal() or text(x["r"]) != x["s"]:
                return True
        elif x["s"] in known:
            return True
    return False


class Frame:
    __slots__ = ("b", "h", "t", "ply", "chk", "since", "mv", "lm")

    def __init__(self, b, h, t, ply, since, mv):
        self.b, self.h, self.t, self.ply, self.since, self.mv = b, h, t, ply, since, mv
        self.chk = in_check(b, t)
        self.lm = None

    def legal(self):
        if self.lm is None:
            self.lm = set(legal(self.b, self.h, self.t))
        return self.lm


def rep(S, limit):
    n = len(S) - 1
    p = S[n]
    e = min(p.since, limit) if limit else p.since
    for i in range(4, e + 1, 2):
        q = S[n - i]
        if p.b != q.b:
            continue
        if p.h == q.h:
            if all(S[j].chk for j in range(n - 1, n - i, -2)):
                return "LOSE"
            return "WIN" if all(S[j].chk for j in range(n, n - i, -2)) else "DRAW"
        x, y = p.h[p.t], q.h[p.t]
        if all(a >= z for a, z in zip(x, y)):
            return "SUPERIOR"
        if all(a <= z for a, z in zip(x, y)):
            return "INFERIOR"
    return "NONE"


def _push(S, m):
    f = S[-1]
    return S + [Frame(*play(f.b, f.h, f.t, m), f.ply + 1, f.since + 1, m)]


def _fields(e, S):
    f = S[-1]
    for k, v in e.items():
        if k in ("b", "pc"):
            if v != f.b:
                return k
        elif k == "h":
            if v != f.h:
                return k
        elif k == "t":
            if v != f.t:
                return k
        elif k == "ply":
            if v != f.ply:
                return k
        elif k == "chk":
            if v != int(f.chk):
                return k
        elif k == "ks":
            if v != [x if x >= 0 else 81 for x in (king(f.b, 0), king(f.b, 1))]:
                return k
        elif k in ("lm", "pleg"):
            if set(v) != f.legal() or (k == "lm" and len(v) != len(f.legal())):
                return k
        elif k == "go":
            if v != int(stuck(f.b, f.h, f.t)):
                return k
        elif k == "hist":
            if v != [x.mv for x in S[1:]]:
                return k
        elif k == "peek":
            if v != f.mv:
                return k
        elif k == "nyu":
            if v != int(declare(f.b, f.h, f.t)):
                return k
        elif k == "sfen":
            if v != sfen(f.b, f.h, f.t, f.ply):
                return k
        elif k == "rep":
            if any(x["r"] != rep(S, x["n"]) for x in v):
                return k
        elif k == "mrep":
            if any(x["r"] != rep(_push(S, x["m"]), x["n"]) for x in v):
                return k
        elif k == "legal":
            if any(x["r"] != int(x["m"] in f.legal()) for x in v):
                return k
        elif k == "gck":
            if any(x["r"] != int(in_check(*play(f.b, f.h, f.t, x["m"])[::2])) for x in v):
                return k
        elif k in ("ausi", "acsa"):
            if texts(f, v, usi if k == "ausi" else csa):
                return k
        elif k in ("usi", "csa"):
            if any(x["s"] != (usi if k == "usi" else csa)(x["m"]) for x in v):
                return k
        elif k == "mattr":
            if any(x != attr(x[0]) for x in v):
                return k
        elif k == "csapos":
            if v != csapos(f.b, f.h, f.t):
                return k
        elif k in ("hcp", "psf"):
            if v != pack(f.b, f.h, f.t, k):
                return k
        elif k == "rot":
            if v != sfen(*rot(f.b, f.h, f.t), f.ply):
                return k
        elif k == "bk":
            if v != book(f.b, f.h, f.t):
                return k
        elif k == "bka":
            if any(x["k"] != book(*play(f.b, f.h, f.t, x["m"])) for x in v):
                return k
        elif k == "pp":
            if set(v) != piece_planes(f.b):
                return k
        elif k == "ppr":
            if set(v) != piece_planes(rot(f.b, f.h, f.t)[0] if f.t else f.b):
                return k
        elif k == "f1":
            if set(v) != feat1(f.b, f.h, f.t):
                return k
        elif k == "f2":
            if set(v) != feat2(f.b, f.h, f.t):
                return k
        elif k == "f2n":
            must, may = nyu_planes(f.b, f.h, f.t)
            must |= feat2(f.b, f.h, f.t)
            if not must <= set(v) <= must | may:
                return k
        elif k == "df":
            if any(x["same"] != 1 or (x["c"] == [["none"]] if x["r"] else x["m"]) for x in v):
                return k
            for x in v:
                if x["r"]:
                    q = (f.b, f.h, f.t)
                    for m in x["pv"]:
                        if m not in legal(*q):
                            return k
                        q = play(*q, m)
                    if not mated(*q) and not (x["solver"] == "osl" and len(x["pv"]) == x["d"]):
                        return k
        elif k == "dfand":
            if any(x["same"] != 1 or (x["r"] and x["c"] == [["none"]]) or (not x["r"] and mated(f.b, f.h, f.t)) for x in v):
                return k
        elif k == "m1":
            if v and (v not in f.legal() or not mated(*play(f.b, f.h, f.t, v))):
                return k
        elif k == "mate":
            for x in v:
                if x["r"] and x["c"] == [["none"]]:
                    return k
            if any(not x["r"] for x in v):
                for m in f.legal():
                    if mated(*play(f.b, f.h, f.t, m)):
                        return k
        elif k == "ismate":
            if any(x["c"] == [["none"]] for x in v if x["r"]) or (any(not x["r"] for x in v) and mated(f.b, f.h, f.t)):
                return k
        elif k in ("same", "ok"):
            if v != 1:
                return k
    return ""


def odd(ev):
    """What looks strange in the events of a session of the board, or nothing."""
    st, kz, zk = {}, {}, {}
    for e in ev:
        o = e.get("o", 1)
        op = e["op"]
        S = st.get(o)
        if op == "set":
            st[o] = [Frame(e["ab"], e["ah"], e["at"], e["aply"], 0, 0)]
        elif op == "push":
            if S[-1].lm is not None and e["m"] not in S[-1].lm:
                return "push"
            st[o] = _push(S, e["m"])
        elif op == "pop":
            if len(S) < 2 or e.get("ret", S[-1].mv) != S[-1].mv:
                return "pop"
            st[o] = S[:-1]
        elif op == "pass":
            f = S[-1]
            st[o] = S + [Frame(f.b, f.h, 1 - f.t, f.ply, 0, 129)]
        elif op == "unpass":
            st[o] = S[:-1]
        elif op == "copy":
            st[o] = st[e["from"]]
        elif op == "turn":
            f = S[-1]
            st[o] = [Frame(f.b, f.h, e["v"], f.ply, 0, 0)]
        elif op == "ply":
            d = e["v"] - S[-1].ply
            new = []
            for f in S:
                g = Frame(f.b, f.h, f.t, f.ply + d, f.since, f.mv)
                new.append(g)
            st[o] = new
        elif op == "pieces":
            st[o] = [Frame(e["ab"], e["ah"], S[-1].t, S[-1].ply, 0, 0)]
        elif op in ("obs", "raw"):
            pass
        else:
            return op
        if op == "raw":
            continue
        k = _fields(e, st[o])
        if k:
            return op + ":" + k
        if "hash" in e:
            f = st[o][-1]
            key = (tuple(f.b), tuple(f.h[0]), tuple(f.h[1]), f.t)
            if kz.setdefault(e["hash"], key) != key or zk.setdefault(key, e["hash"]) != e["hash"]:
                return "hash"
    return ""
