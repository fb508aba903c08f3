"""Proof-number mate search (both solvers): answers with certificates."""
import gen
import obs
import p01
import p08
import solver
from cshogi import Board, DfPn
from cshogi.osl import DfPn as OslDfPn

POOL = {}


def certificate(b, m, d, pv):
    """That m mates, and within how many plies; None if it does not; "?" if that is not settled or too long to write down."""
    S = solver.Solver(b, 60000)
    try:
        c, n = None, d
        if d <= 5:
            c = S.after(m, d)
        # a line may be longer than the solver's limit, by what it remembers
        for n in [n] if c is not None else sorted({min(len(pv), 2 * d + 5) | 1, d, 2 * d + 5}):
            if c is None:
                c = S.ask(m, n - 1)
                c = None if c is None else solver.tree(c, 0)[0]
            if c is not None:
                break
    except solver.Timeout:
        return "?", 0
    return ("?" if c is not None and solver.size(c) > 500 else c), n


def look(rng, b, d, kind, fresh):
    key = b.zobrist_hash()
    if fresh or kind not in POOL:
        POOL[kind] = (DfPn if kind == "df" else OslDfPn)(depth=d, nodes=200000)
    D = POOL[kind]
    D.set_max_depth(d)
    D.set_max_search_node(200000)
    e = dict(solver=kind, d=d)
    r = D.search(b)
    e["r"] = r
    e["same"] = b.zobrist_hash() == key
    if r:
        pv = list(D.get_pv(b))
        m = D.get_move(b)
        c, n = certificate(b, m, d, pv)
        if c == "?":
            return None
        e.update(pv=pv, m=m, c=c if c is not None else [["none"]], n=n)
    else:
        w = solver.Solver(b).win(3 if kind == "df" else 1) if D.searched_node < 190000 else None
        e.update(pv=[], m=w[0] if w else 0, c=w[1] if w else [], n=3)
    return e


def lookand(b, cls, d):
    key = b.zobrist_hash()
    r = cls(depth=d, nodes=200000).search_andnode(b)
    c, n = [], d + 1
    if r:
        S = solver.Solver(b)
        try:
            c = S.lost(d + 1)
            if c is None:
                n = 2 * d + 4
                c = S.ask(0, n)
                c = None if c is None else solver.tree(c, 0)[0]
        except solver.Timeout:
            return None
        if c is not None and solver.size(c) > 500:
            return None
        c = [["none"]] if c is None else c
    return dict(r=r, c=c, n=n, same=key == b.zobrist_hash())


def rich(rng, pos):
    """More in hand, mostly the attacker's."""
    q = pos.copy()
    for _ in range(rng.randint(1, 5)):
        i = rng.randrange(7)
        pt = gen.HAND_ORDER[i]
        used = sum(1 for p in q.b if (p & 15) in ((pt, pt + 8) if pt < 7 else (7,))) + q.h[0][i] + q.h[1][i]
        if used < gen.FULL[pt]:
            q.h[q.t if rng.random() < 0.7 else 1 - q.t][i] += 1
    return q


def hard(rng):
    """A king with few men against many pieces in hand."""
    while True:
        pos = gen.Pos()
        kw = gen._king_square(rng) if rng.random() < 0.5 else 9 * rng.randrange(9) + rng.randrange(4)
        kb = rng.choice([80, 8, 44, rng.randrange(81)])
        if abs(kw // 9 - kb // 9) <= 1 and abs(kw % 9 - kb % 9) <= 1:
            continue
        pos.b[kw], pos.b[kb] = 24, 8
        stock = dict(gen.FULL)
        for _ in range(rng.randint(2, 6)):
            pt = rng.choice([p for p in stock if stock[p]])
            c = 0 if rng.random() < 0.5 else 1
            s = gen._near(rng, kw, rng.choice([1, 2, 2, 3, 4]))
            p = pt + 8 if pt <= 6 and rng.random() < 0.3 else pt
            if pos.b[s] or gen.dead_end(p, c, s):
                continue
            pos.b[s] = p + 16 * c
            stock[pt] -= 1
        for c, n in ((0, rng.randint(2, 7)), (1, rng.randint(0, 3))):
            for _ in range(n):
                pt = rng.choice([p for p in stock if stock[p]])
                pos.h[c][gen.SLOT[pt]] += 1
                stock[pt] -= 1
        if gen.ok(pos):
            return pos if rng.random() < 0.5 else pos.rot()


def deep(rng):
    """A problem of some length: no mate in three, and a mate in the view of the solver (or one change away from that)."""
    pos = None
    for _ in range(25):
        k = rng.random()
        pos = hard(rng) if k < 0.7 else rich(rng, p08.attacking(rng)) if k < 0.85 else rich(rng, p08.far(rng) if k < 0.93 else p08.screen(rng))
        k = rng.random()
        if k < 0.2:
            pos = p08.counter(rng, pos) if k < 0.1 else p08.counterdrop(rng, pos)
        D = DfPn(depth=rng.choice([7, 9, 13]), nodes=1500)
        if D.search(Board(gen.sfen(pos))) and D.searched_node >= 10:
            break
    k = rng.random()
    if k < 0.2:
        q = p08.hands(rng, pos)
        return q if gen.ok(q) else pos
    if k < 0.3:
        q = gen.mutate(rng, pos)
        return q if p08.kings(q) and gen.ok(q) else pos
    return pos


def long(s, i, rng):
    pos = deep(rng)
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    out = [e for e in [look(rng, b, rng.choice([5, 7, 9, 9, 11, 13]), kind, True) for kind in ("df", "df", "osl")] if e]
    s.emit("obs", df=out, dfand=[], **obs.basic(b))


def answered(s, i, rng):
    """After each of some checks: is the side in check lost?"""
    pos = p08.pick(rng) if rng.random() < 0.6 else deep(rng)
    if rng.random() < 0.3:                  # the defender answers with checks of its own
        pos = p08.counter(rng, pos) if rng.random() < 0.5 else p08.counterdrop(rng, pos)
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    n = 0
    lm = list(b.legal_moves)
    for m in rng.sample(lm, len(lm)):
        b.push(m)
        if b.is_check() and n < 6:
            n += 1
            d = rng.choice([1, 3, 5, 7])
            out = [dict(e, solver=kind) for kind, e in [(kind, lookand(b, cls, d)) for kind, cls in (("df", DfPn), ("osl", OslDfPn))] if e]
            s.emit("push", m=m)
            s.emit("obs", df=[], dfand=out)
            s.emit("pop")
        b.pop()


def again(s, i, rng):
    """One solver object, one board, different pieces in hand: what it remembers must not carry over wrongly."""
    pos = p08.pick(rng)
    if rng.random() < 0.5:                  # more to start with
        pos.h[pos.t][rng.choice([i for i in range(7) if pos.h[pos.t][i] + pos.h[1 - pos.t][i] < 2 or i == 0])] += 1
        if not gen.ok(pos):
            pos = p08.pick(rng)
    d = rng.choice([3, 5, 5, 7])
    for j in range(rng.choice([2, 3, 4])):
        b = p01.setup(s, rng, pos)
        s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
        s.emit("obs", df=[e for e in [look(rng, b, d, kind, j == 0) for kind in ("df", "osl")] if e], dfand=[])
        for _ in range(20):
            q = pos.copy() if rng.random() < 0.3 else p08.hands(rng, pos)
            c = rng.randrange(2)
            have = [x for x in range(7) if q.h[c][x]]
            if have and rng.random() < 0.7:
                x = rng.choice(have)
                q.h[c][x] -= 1
                if rng.random() < 0.5:
                    q.h[1 - c][x] += 1
            if gen.ok(q) and q.h != pos.h:
                pos = q
                break
        else:
            break


def session(s, i, rng, tier):
    if i % 5 == 1:
        return again(s, i, rng)
    if i % 5 == 2:
        return long(s, i, rng)
    if i % 5 == 3:
        return answered(s, i, rng)
    pos = p08.pick(rng)
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    for j in range(rng.choice([1, 1, 2])):
        out = []
        for kind in ("df", "osl"):
            e = look(rng, b, rng.choice([3, 5, 5] if i % 4 else [5, 7]), kind, rng.random() < 0.5)
            if e:
                out.append(e)
        ands = []
        if b.is_check():
            ands = [dict(e, solver=kind) for kind, e in [(kind, lookand(b, cls, 5)) for kind, cls in (("df", DfPn), ("osl", OslDfPn))] if e]
        s.emit("obs", df=out, dfand=ands, **obs.basic(b))
        lm = list(b.legal_moves)
        if not lm:
            break
        m = gen.choose(rng, lm, "sharp")
        if out and out[0]["r"] and rng.random() < 0.7:
            m = out[0]["m"]
        b.push(m)
        s.emit("push", m=m)
