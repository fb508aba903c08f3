"""Rating figures for results of matches, alone and related to each other."""
from cshogi.elo import Elo


def cents(x):
    return int(round(100 * x))


def figures(w, l, d):
    e = Elo(w, l, d)
    f = dict(w=w, l=l, d=d, exc="", points=0, draws=0, diff=0, margin=-1, los=0)
    f["points"] = int(round(10000 * e.point_ratio()))
    f["draws"] = int(round(10000 * e.draw_ratio()))
    if 2 * w + d > 0 and 2 * l + d > 0:
        f["diff"] = cents(e.diff())
        try:
            f["margin"] = cents(e.error_margin())
        except ValueError:
            pass
    if w + l:
        f["los"] = cents(e.los())
    return f


def session(s, i, rng, tier):
    if i < 60:                                               # all results of up to 6 games, a part of them in each session
        rs = [(w, l, n - w - l) for n in range(1, 13) for w in range(n + 1) for l in range(n - w + 1)]
        for r in rs[i::60]:
            s.emit("elo", rel="", **figures(*r))
        return
    n = rng.choice([3, 10, 30, 100, 300, 600])
    for _ in range(12):
        k = rng.randint(1, n)
        w = rng.randint(0, k)
        l = rng.randint(0, k - w)
        if rng.random() < 0.4:                               # close matches
            w = k // 2 + rng.randint(-k // 8 - 1, k // 8 + 1)
            w = max(0, min(k, w))
            l = max(0, min(k - w, k // 2))
        d = k - w - l
        s.emit("elo", rel="", **figures(w, l, d))
        r = rng.random()
        if r < 0.3:
            s.emit("elo", rel="swap", **figures(l, w, d))
        elif r < 0.6:
            s.emit("elo", rel="more", **figures(w + 1, l, d))
        elif r < 0.8 and k <= 200:
            m = rng.choice([2, 3])
            s.emit("elo", rel="times", **figures(m * w, m * l, m * d))
