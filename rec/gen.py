"""Input generation for the recorders: random shogi positions, as plain data.

Nothing here decides a property; it only chooses what the real code is asked.  A small attack detector is used
to keep to positions that can arise in play (the side that is not to move is not in check)."""
import random

FULL = {1: 18, 2: 4, 3: 4, 4: 4, 5: 2, 6: 2, 7: 4}
HAND_ORDER = [1, 2, 3, 4, 7, 5, 6]           # P L N S G B R
SLOT = {pt: i for i, pt in enumerate(HAND_ORDER)}
PIECE_CHARS = {1: 'P', 2: 'L', 3: 'N', 4: 'S', 5: 'B', 6: 'R', 7: 'G', 8: 'K', 9: '+P', 10: '+L', 11: '+N', 12: '+S',
               13: '+B', 14: '+R'}
STEP = {1: [(0, -1)], 3: [(-1, -2), (1, -2)], 4: [(0, -1), (-1, -1), (1, -1), (-1, 1), (1, 1)],
        7: [(0, -1), (-1, -1), (1, -1), (-1, 0), (1, 0), (0, 1)],
        8: [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)],
        13: [(0, -1), (0, 1), (-1, 0), (1, 0)], 14: [(-1, -1), (1, -1), (-1, 1), (1, 1)]}
for _p in (9, 10, 11, 12):
    STEP[_p] = STEP[7]
SLIDE = {2: [(0, -1)], 5: [(-1, -1), (1, -1), (-1, 1), (1, 1)], 6: [(0, -1), (0, 1), (-1, 0), (1, 0)]}
SLIDE[13] = SLIDE[5]
SLIDE[14] = SLIDE[6]
START = "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1"


class Pos:
    __slots__ = ("b", "h", "t", "ply")

    def __init__(self, b=None, h=None, t=0, ply=1):
        self.b = b if b is not None else [0] * 81
        self.h = h if h is not None else [[0] * 7, [0] * 7]
        self.t = t
        self.ply = ply

    def copy(self):
        return Pos(list(self.b), [list(self.h[0]), list(self.h[1])], self.t, self.ply)

    def rot(self):
        """The same position seen from the other side."""
        nb = [0] * 81
        for s, p in enumerate(self.b):
            if p:
                nb[80 - s] = p - 16 if p > 16 else p + 16
        return Pos(nb, [list(self.h[1]), list(self.h[0])], 1 - self.t, self.ply)


def sfen(pos, hand_shuffle=None):
    rows = []
    for r in range(9):
        row, n = "", 0
        for f in range(8, -1, -1):
            p = pos.b[9 * f + r]
            if p == 0:
                n += 1
                continue
            if n:
                row += str(n)
                n = 0
            c = PIECE_CHARS[p & 15]
            row += c.lower() if p > 16 else c
        if n:
            row += str(n)
        rows.append(row)
    hand = ""
    for c in (0, 1):
        for pt in (6, 5, 7, 4, 3, 2, 1):
            n = pos.h[c][SLOT[pt]]
            if n:
                ch = PIECE_CHARS[pt]
                hand += (str(n) if n > 1 else "") + (ch.lower() if c else ch)
    return "%s %s %s %d" % ("/".join(rows), "bw"[pos.t], hand or "-", pos.ply)


def parse_sfen(s):
    parts = s.split()
    pos = Pos()
    for r, row in enumerate(parts[0].split("/")):
        f, i = 8, 0
        while i < len(row):
            ch = row[i]
            if ch.isdigit():
                f -= int(ch)
                i += 1
                continue
            pro = 0
            if ch == "+":
                pro = 8
                i += 1
                ch = row[i]
            pt = {v: k for k, v in PIECE_CHARS.items()}[ch.upper()] + pro
            pos.b[9 * f + r] = pt + (16 if ch.islower() else 0)
            f -= 1
            i += 1
    pos.t = 0 if parts[1] == "b" else 1
    if parts[2] != "-":
        n = ""
        for ch in parts[2]:
            if ch.isdigit():
                n += ch
            else:
                pt = {v: k for k, v in PIECE_CHARS.items()}[ch.upper()]
                pos.h[1 if ch.islower() else 0][SLOT[pt]] += int(n or 1)
                n = ""
    pos.ply = int(parts[3]) if len(parts) > 3 else 1
    return pos


def attackers(b, s, c):
    """The squares from which colour c attacks s."""
    out = []
    f0, r0 = divmod(s, 9)
    sign = 1 if c == 0 else -1
    for x in range(81):
        p = b[x]
        if not p or (p > 16) != (c == 1):
            continue
        pt = p & 15
        f, r = divmod(x, 9)
        for df, dr in STEP.get(pt, ()):
            if f + df * sign == f0 and r + dr * sign == r0:
                out.append(x)
        for df, dr in SLIDE.get(pt, ()):
            ff, rr = f + df * sign, r + dr * sign
            while 0 <= ff < 9 and 0 <= rr < 9:
                if ff == f0 and rr == r0:
                    out.append(x)
                if b[9 * ff + rr]:
                    break
                ff += df * sign
                rr += dr * sign
    return out


def attacked(b, s, c):
    return bool(attackers(b, s, c))


def plausible_check(pos):
    """At most a double check, and then one that a single move can give: a distant slider takes part in it."""
    k = king(pos.b, pos.t)
    if k < 0:
        return True
    a = attackers(pos.b, k, 1 - pos.t)
    if len(a) <= 1:
        return True
    if len(a) > 2:
        return False
    return any(max(abs(x // 9 - k // 9), abs(x % 9 - k % 9)) > 1 and pos.b[x] & 15 in SLIDE for x in a)


def king(b, c):
    k = 8 + 16 * c
    return b.index(k) if k in b else -1


def in_check(pos, c):
    k = king(pos.b, c)
    return k >= 0 and attacked(pos.b, k, 1 - c)


def dead_end(pt, c, s):
    r = s % 9
    r = r if c == 0 else 8 - r
    return (pt in (1, 2) and r == 0) or (pt == 3 and r <= 1)


def _near(rng, s, d):
    f, r = divmod(s, 9)
    return min(8, max(0, f + rng.randint(-d, d))) * 9 + min(8, max(0, r + rng.randint(-d, d)))


def _king_square(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice([0, 8, 72, 80])
    if k < 0.6:
        f, r = rng.randrange(9), rng.randrange(9)
        side = rng.randrange(4)
        if side == 0: f = 0
        elif side == 1: f = 8
        elif side == 2: r = 0
        else: r = 8
        return 9 * f + r
    return rng.randrange(81)


def random_pos(rng, kind=None):
    """A random position in which the side not to move is not in check, or None."""
    kind = kind or rng.choice(["sparse", "clash", "clash", "dense", "check", "check", "corner", "handy", "mid"])
    pos = Pos()
    b = pos.b
    pos.t = rng.randrange(2)
    pos.ply = rng.choice([1, 1, 2, 3, 17, 50, 120, 255, 256, 511])
    kb = _king_square(rng) if kind != "mid" else 9 * rng.randrange(9) + rng.randrange(5, 9)
    for _ in range(50):
        kw = _near(rng, kb, 3) if kind == "clash" and rng.random() < 0.4 else _king_square(rng)
        if kind == "mid":
            kw = 9 * rng.randrange(9) + rng.randrange(0, 4)
        if kw != kb and not (abs(kw // 9 - kb // 9) <= 1 and abs(kw % 9 - kb % 9) <= 1):
            break
    else:
        return None
    b[kb], b[kw] = 8, 24
    stock = dict(FULL)
    n = {"sparse": rng.randint(2, 9), "clash": rng.randint(6, 20), "dense": rng.randint(22, 36), "check": rng.randint(4, 18),
         "corner": rng.randint(5, 14), "handy": rng.randint(3, 10), "mid": rng.randint(16, 32)}[kind]
    ks = [kb, kw]
    files = [set(), set()]
    victim = ks[pos.t] if kind == "check" else None
    for _ in range(n):
        pts = [p for p in stock if stock[p] > 0]
        if not pts:
            break
        pt = rng.choice(pts) if rng.random() < 0.65 else rng.choice([p for p in pts for _ in range(stock[p])])
        c = rng.randrange(2)
        for _ in range(8):
            if kind in ("clash", "corner", "check") and rng.random() < 0.8:
                s = _near(rng, rng.choice(ks) if victim is None or rng.random() < 0.3 else victim, rng.choice([1, 1, 2, 2, 3, 4]))
            else:
                s = rng.randrange(81)
            if b[s]:
                continue
            p = pt
            if pt <= 6 and rng.random() < (0.35 if (s % 9 <= 2) == (c == 0) else 0.2):
                p = pt + 8
            if dead_end(p, c, s) or (p == 1 and s // 9 in files[c]):
                continue
            b[s] = p + 16 * c
            if in_check(pos, 1 - pos.t):      # would leave the waiting side in check
                b[s] = 0
                continue
            if p == 1:
                files[c].add(s // 9)
            stock[pt] -= 1
            break
    # hands
    k = rng.random()
    if kind == "handy" or k < 0.6:
        for pt in stock:
            left = stock[pt]
            for c in ((0, 1) if rng.random() < 0.5 else (1, 0)):
                if left and rng.random() < (0.8 if kind == "handy" else 0.45):
                    m = rng.randint(1, left) if rng.random() < 0.7 else left
                    pos.h[c][SLOT[pt]] += m
                    left -= m
    if in_check(pos, 1 - pos.t) or not plausible_check(pos):
        return None
    if kind == "check" and not in_check(pos, pos.t) and rng.random() < 0.8:
        return None
    return pos


def position(rng, kind=None):
    while True:
        p = random_pos(rng, kind)
        if p is not None:
            return p


# Hand-made positions around the delicate rules; each is used with both colours.
CRAFTED = [
    START,
    # uchifuzume and its near misses: free flight square, capturable pawn, pinned defender, discovered capture
    "lnsgk4/6G2/4G4/9/9/9/9/9/4K4 b P 1",
    "8k/9/8P/9/9/9/9/9/4K4 b 2P 1", "7nk/7G1/9/9/9/9/9/9/4K4 b P 1", "7lk/9/8S/9/9/9/9/9/4K4 b P 1",
    "7bk/6G2/8R/9/9/9/9/9/4K4 b P 1", "7gk/9/7G1/9/9/9/9/6B2/4K4 b P 1", "6ggk/9/7G1/9/9/9/9/8R/4K4 b P 1",
    "R5ggk/9/7G1/9/9/9/9/9/4K4 b P 1", "7rk/9/7NL/9/9/9/9/9/4K4 b P 1", "6g1k/9/7G1/9/9/9/9/1B7/4K4 b P 1",
    # a pawn drop that answers a check and would mate, because the man that gave the check is pinned
    "2k+b+R4/GR7/pK7/9/9/9/9/9/9 b P 1", "R+bk6/1l1R5/+S2K5/LB7/9/9/9/9/9 b G3SP 1", "2R1+lkn2/4r3K/3B1S1+P1/9/9/9/9/9/9 b P 1",
    "2R1+bkr2/4s4/4B2G1/7KG/9/9/9/9/9 b 2P 1",
    # double checks, discovered checks, pins along every line
    "4k4/9/4n4/9/4r4/9/9/9/4K4 b RBGSNLP 1", "4k4/4r4/9/9/9/4S4/9/9/4K4 b G 1", "b3k4/9/9/9/4G4/9/9/9/8K b P 1",
    "8k/9/9/9/4S4/9/9/9/B3K3r b - 1", "4k4/9/9/9/9/9/3n5/9/4K3r b G2S 1", "4k4/9/9/9/9/9/3n1n3/9/4K4 b G2S 1".replace("n1n", "n2"), "k8/9/9/4b4/9/6N2/7K1/9/9 b GP 1",
    "4k4/9/9/9/9/9/4l4/4P4/4K4 b P 1", "4k4/9/9/9/9/9/4+p4/9/4K4 b GSNL 1",
    # promotion rules on the last ranks
    "4k4/PLN1B1R1S/9/9/9/9/9/9/4K4 b - 1", "9/9/PLNSBRG1k/9/9/9/9/9/4K4 b - 1", "4k4/9/9/PLNSBRG2/9/9/9/9/4K4 b - 1",
    "1r1b1g1s1/PLN1L1P1N/k8/9/9/9/9/9/4K4 b - 1", "k1+R1+B4/9/9/3+P+L+N+S2/9/9/9/9/4K4 b - 1",
    # only one side has a king (problem positions)
    "4k4/9/4P4/9/9/9/9/9/9 b 2G2r2b2g4s4n4l17p 1", "7k1/9/6B1N/9/9/9/9/9/9 b RGr b2g4s3n4l18p 1".replace("r b", "rb"),
    "9/9/9/9/9/9/4p4/9/4K4 w 2g 1",
    # entering kings
    "1+P1+P+R4/2K1+P+B3/+PPP1G4/9/9/9/4+p1ppp/3+b1k3/5+r1+p1 b 3G4S4N4L5P 101",
    # maximum number of legal moves
    "R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1", "l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w RGgsn5p 1",
]


def crafted(rng):
    p = parse_sfen(rng.choice(CRAFTED))
    return p.rot() if rng.random() < 0.5 else p


def mutate(rng, pos):
    """A small random change that keeps the position plausible."""
    for _ in range(20):
        q = pos.copy()
        k = rng.random()
        occ = [s for s in range(81) if q.b[s] and q.b[s] & 15 != 8]
        if k < 0.35 and occ:
            s, d = rng.choice(occ), rng.randrange(81)
            if q.b[d]:
                continue
            q.b[d], q.b[s] = q.b[s], 0
        elif k < 0.5 and occ:
            s = rng.choice(occ)
            pt = q.b[s] & 15
            pt = pt - 8 if pt > 8 else pt
            q.b[s] = 0
            q.h[rng.randrange(2)][SLOT[pt]] += 1
        elif k < 0.65:
            c = rng.randrange(2)
            have = [i for i in range(7) if q.h[c][i]]
            if not have:
                continue
            i = rng.choice(have)
            d = rng.randrange(81)
            if q.b[d]:
                continue
            q.h[c][i] -= 1
            q.b[d] = HAND_ORDER[i] + 16 * c
        elif k < 0.8:
            ks = [s for s in range(81) if q.b[s] & 15 == 8]
            if not ks:
                continue
            s = rng.choice(ks)
            d = _near(rng, s, 1)
            if q.b[d]:
                continue
            q.b[d], q.b[s] = q.b[s], 0
        elif k < 0.9 and occ:
            s = rng.choice(occ)
            pt = q.b[s] & 15
            if pt == 7:
                continue
            q.b[s] = q.b[s] + 8 if pt <= 6 else q.b[s] - 8
        else:
            q.t = 1 - q.t
        if ok(q):
            return q
    return pos


def ok(q):
    kk = [king(q.b, 0), king(q.b, 1)]
    if kk[0] >= 0 and kk[1] >= 0:
        if abs(kk[0] // 9 - kk[1] // 9) <= 1 and abs(kk[0] % 9 - kk[1] % 9) <= 1:
            return False
    if q.b.count(8) > 1 or q.b.count(24) > 1:
        return False
    for pt, n in FULL.items():
        have = sum(1 for x in q.b if x and x & 15 in (pt, pt + 8) and (x & 15) != 8 and not (pt == 7 and x & 15 == 15))
        if have + q.h[0][SLOT[pt]] + q.h[1][SLOT[pt]] > n:
            return False
    for c in (0, 1):
        files = set()
        for s in range(81):
            p = q.b[s]
            if p and (p > 16) == (c == 1):
                if dead_end(p & 15, c, s):
                    return False
                if p & 15 == 1:
                    if s // 9 in files:
                        return False
                    files.add(s // 9)
    return not in_check(q, 1 - q.t) and plausible_check(q)


DIRS = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)]


def _ray(s, d):
    f, r = divmod(s, 9)
    out = []
    while True:
        f, r = f + d[0], r + d[1]
        if not (0 <= f < 9 and 0 <= r < 9):
            return out
        out.append(9 * f + r)


def _slider(rng, c, d):
    """A sliding piece of colour c that attacks along d from its square."""
    sign = 1 if c == 0 else -1
    dd = (d[0] * sign, d[1] * sign)
    return rng.choice([p for p in (2, 2, 5, 6, 13, 14) if dd in SLIDE[p]]) + 16 * c


def _fill(rng, pos, n, around, keep=(), colour=None, near=(1, 1, 2, 2, 3)):
    """Up to n random pieces near the given squares, never on the squares to keep."""
    for _ in range(n):
        left = {pt: m - sum(1 for x in pos.b if x and x & 15 != 8 and ((x & 15) == pt or (x & 15) == pt + 8 and pt != 7))
                - pos.h[0][SLOT[pt]] - pos.h[1][SLOT[pt]] for pt, m in FULL.items()}
        pts = [p for p in left if left[p] > 0]
        if not pts:
            return
        pt = rng.choice(pts)
        c = rng.randrange(2) if colour is None else colour
        for _ in range(6):
            x = _near(rng, rng.choice(around), rng.choice(near))
            p = pt + 8 if pt <= 6 and rng.random() < 0.25 else pt
            if pos.b[x] or x in keep or dead_end(p, c, x):
                continue
            if p == 1 and any(pos.b[9 * (x // 9) + r] == 1 + 16 * c for r in range(9)):
                continue
            pos.b[x] = p + 16 * c
            if in_check(pos, 1 - pos.t) or not plausible_check(pos):
                pos.b[x] = 0
                continue
            break


def _hands(rng, pos):
    left = {pt: m - sum(1 for x in pos.b if x and x & 15 != 8 and ((x & 15) == pt or (x & 15) == pt + 8 and pt != 7))
            - pos.h[0][SLOT[pt]] - pos.h[1][SLOT[pt]] for pt, m in FULL.items()}
    k = rng.random()
    for pt in left:
        for c in (0, 1):
            if left[pt] > 0 and rng.random() < (0.15 if k < 0.5 else 0.5):
                n = rng.randint(1, left[pt])
                pos.h[c][SLOT[pt]] += n
                left[pt] -= n


def pawn_drop(rng):
    """The mover has a pawn in hand and the square before the other king is free and guarded; often few flight squares,
    and often the drop also answers a check."""
    pos = Pos(t=0, ply=rng.choice([1, 40, 256]))
    b = pos.b
    kf, kr = rng.choice([0, 0, 8, 8, rng.randrange(9)]), rng.choice([0, 0, 0, 1, 2, rng.randrange(8)])
    k = 9 * kf + kr
    x = k + 1
    b[k] = 24
    pos.h[0][0] = rng.choice([1, 1, 2])
    keep = {x}
    if rng.random() < 0.5:                   # the drop answers a check along a line through its square
        d = rng.choice([q for q in DIRS if q != (0, -1) and q != (0, 1)])
        fore, back = _ray(x, d), _ray(x, (-d[0], -d[1]))
        if not fore or not back:
            return None
        own, far = rng.choice(fore), rng.choice(back)
        if max(abs(own // 9 - kf), abs(own % 9 - kr)) <= 1:
            return None
        b[own] = 8
        b[far] = _slider(rng, 1, d)
        keep |= set(fore) | set(back)
        keep -= set()
    else:
        own = rng.randrange(81)
        if b[own] or own == x or max(abs(own // 9 - kf), abs(own % 9 - kr)) <= 1:
            return None
        b[own] = 8
    # the guard of the square
    for _ in range(20):
        g = _near(rng, x, 2)
        pt = rng.choice([4, 7, 7, 9, 12, 3, 13, 14, 2, 6, 5])
        if b[g] or g in keep or dead_end(pt, 0, g):
            continue
        b[g] = pt
        if attacked(b, x, 0) and not in_check(pos, 1):
            break
        b[g] = 0
    else:
        return None
    _fill(rng, pos, rng.randint(1, 6), [k], keep, colour=1, near=(1, 1, 1, 2))
    _fill(rng, pos, rng.randint(0, 5), [k], keep, colour=0, near=(1, 2, 2, 3))
    _fill(rng, pos, rng.randint(0, 4), [k, own], keep)
    if any(b[9 * kf + r] == 1 for r in range(9)):
        return None
    if rng.random() < 0.7:                   # close the flight squares that are left
        for d in DIRS:
            f, r = kf + d[0], kr + d[1]
            y = 9 * f + r
            if 0 <= f < 9 and 0 <= r < 9 and y != x and not b[y] and not attacked(b, y, 0) and rng.random() < 0.9 and y not in keep:
                for pt in rng.sample([1, 2, 3, 4, 5, 6, 7], 7):
                    if sum(1 for z in b if z & 15 in (pt, pt + 8)) + pos.h[0][SLOT[pt]] >= FULL[pt] or dead_end(pt, 1, y):
                        continue
                    if pt == 1 and any(b[9 * f + q] == 17 for q in range(9)):
                        continue
                    b[y] = pt + 16
                    if not plausible_check(pos):
                        b[y] = 0
                        continue
                    break
    if rng.random() < 0.4:
        _hands(rng, pos)
    return pos


def lone_check(rng):
    """The mover is in check from a distance, with men of his own around (some pinned) and any hand."""
    pos = Pos(t=0, ply=rng.choice([1, 40, 256]))
    b = pos.b
    own = _king_square(rng)
    b[own] = 8
    d = rng.choice(DIRS)
    ray = _ray(own, d)
    if not ray:
        return None
    far = rng.choice(ray)
    b[far] = _slider(rng, 1, (-d[0], -d[1]))
    keep = set(ray[:ray.index(far)])
    for _ in range(rng.choice([0, 1, 1, 2, 3])):  # pinned men
        d2 = rng.choice(DIRS)
        r2 = _ray(own, d2)
        if d2 == d or len(r2) < 2:
            continue
        i, j = sorted(rng.sample(range(len(r2)), 2))
        if any(b[y] for y in r2):
            continue
        pt = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 13, 14])
        if dead_end(pt, 0, r2[i]):
            continue
        b[r2[i]] = pt
        b[r2[j]] = _slider(rng, 1, (-d2[0], -d2[1]))
    for _ in range(20):
        k = rng.randrange(81) if rng.random() < 0.5 else _near(rng, own, 3)
        if b[k] or k in keep or max(abs(own // 9 - k // 9), abs(own % 9 - k % 9)) <= 1:
            continue
        b[k] = 24
        if not in_check(pos, 1):
            break
        b[k] = 0
    else:
        return None
    _fill(rng, pos, rng.randint(0, 9), [own, far, k], keep)
    _hands(rng, pos)
    return pos


def battery(rng):
    """Men of the mover on lines from a sliding man behind them to the other king, and pins on his own."""
    pos = Pos(t=0, ply=rng.choice([1, 40, 256]))
    b = pos.b
    k, own = _king_square(rng), _king_square(rng)
    if max(abs(own // 9 - k // 9), abs(own % 9 - k % 9)) <= 1:
        return None
    b[k], b[own] = 24, 8
    for _ in range(rng.choice([1, 1, 2, 3])):
        target, c = (k, 0) if rng.random() < 0.7 else (own, 1)
        d = rng.choice(DIRS)
        ray = _ray(target, d)
        if len(ray) < 2 or any(b[y] for y in ray):
            continue
        i, j = sorted(rng.sample(range(len(ray)), 2))
        pt = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14])
        if pt == 8:                          # the king himself unveils
            if c == 1 or max(abs(ray[i] // 9 - k // 9), abs(ray[i] % 9 - k % 9)) <= 1:
                continue
            b[own] = 0
            own = ray[i]
        if dead_end(pt, 0, ray[i]):
            continue
        b[ray[i]] = pt
        b[ray[j]] = _slider(rng, c, (-d[0], -d[1]))
    _fill(rng, pos, rng.randint(0, 8), [own, k])
    if rng.random() < 0.6:
        _hands(rng, pos)
    return pos


def motif(rng):
    while True:
        p = rng.choice([pawn_drop, pawn_drop, lone_check, battery])(rng)
        if p is not None and ok(p):
            return p.rot() if rng.random() < 0.5 else p


def any_position(rng):
    k = rng.random()
    if rng.random() < 0.2:
        return motif(rng)
    if k < 0.12:
        return crafted(rng)
    if k < 0.3:
        p = crafted(rng)
        for _ in range(rng.randint(1, 4)):
            p = mutate(rng, p)
        return p
    return position(rng)


# move fields (public encoding)
def mv_to(m): return m & 127
def mv_from(m): return (m >> 7) & 127
def mv_pro(m): return (m >> 14) & 1
def mv_pt(m): return (m >> 16) & 15
def mv_cap(m): return (m >> 20) & 15


def choose(rng, moves, style):
    """Pick a move from a legal list according to a playing style."""
    if style == "uniform":
        return rng.choice(moves)
    r = rng.random()
    if style == "sharp":
        if r < 0.35:
            c = [m for m in moves if mv_cap(m)]
        elif r < 0.55:
            c = [m for m in moves if mv_pro(m)]
        elif r < 0.75:
            c = [m for m in moves if mv_from(m) >= 81]
        elif r < 0.8:
            c = [m for m in moves if mv_pt(m) == 8]
        else:
            c = moves
    elif style == "shuffle":      # non-captures and retreats: repetitions happen
        c = [m for m in moves if not mv_cap(m) and mv_from(m) < 81 and not mv_pro(m)]
        if r < 0.1:
            c = moves
    elif style == "kingwalk":
        c = [m for m in moves if mv_pt(m) == 8 and mv_from(m) < 81] if r < 0.6 else moves
    elif style == "drops":
        c = [m for m in moves if mv_from(m) >= 81] if r < 0.6 else moves
    else:
        c = moves
    return rng.choice(c or moves)

CRAFTED = [_s for _s in CRAFTED if ok(parse_sfen(_s))]
