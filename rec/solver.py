"""Exact mate search (prover.c), used only to produce certificates: the specification checks them."""
import ctypes
import hashlib
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "prover.c")


def _load():
    cache = os.path.join(os.path.dirname(HERE), ".cache")
    os.makedirs(cache, exist_ok=True)
    so = os.path.join(cache, "prover-%s.so" % hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:16])
    if not os.path.exists(so):
        fd, tmp = tempfile.mkstemp(dir=cache, suffix=".so")
        os.close(fd)
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, SRC], check=True)
        os.replace(tmp, so)
    lib = ctypes.CDLL(so)
    lib.prove.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_uint, ctypes.c_int, ctypes.c_long, ctypes.c_void_p, ctypes.c_int,
                          ctypes.c_void_p]
    return lib


LIB = _load()
SIZE = 60000
OUT = (ctypes.c_int32 * SIZE)()
LEN = ctypes.c_int()


class Timeout(Exception):
    """Not decided within the budget."""


class Solver:
    def __init__(self, b, budget=100000):
        self.b = (ctypes.c_int * 81)(*b.pieces)
        self.h = (ctypes.c_int * 14)(*b.pieces_in_hand[0], *b.pieces_in_hand[1])
        self.t, self.budget = b.turn, budget

    def ask(self, first, n):
        r = LIB.prove(self.b, self.h, self.t, first, n, self.budget, OUT, SIZE, ctypes.byref(LEN))
        if r == -2 or r == 0:
            return None
        if r < 0:
            raise Timeout
        return list(OUT[:LEN.value])

    def shortest(self, first, n):
        for k in range(n % 2, n + 1, 2):
            c = self.ask(first, k)
            if c is not None:
                return c
        return None

    def win(self, n):
        """Attacker to move, mate within n (odd) plies: (move, certificate of the position after it) or None."""
        c = self.shortest(0, n)
        return None if c is None else (c[0], tree(c, 1)[0])

    def lost(self, n):
        """Defender to move and in check, mated within n (even) plies: [[reply, answer, certificate], ...] or None."""
        c = self.shortest(0, n)
        return None if c is None else tree(c, 0)[0]

    def after(self, m, n):
        """Certificate that playing m mates within n (odd) plies."""
        c = self.shortest(m, n - 1)
        return None if c is None else tree(c, 0)[0]


def tree(c, i):
    k, out = c[i], []
    i += 1
    for _ in range(k):
        m, a = c[i], c[i + 1]
        t, i = tree(c, i + 2)
        out.append([m, a, t])
    return out, i


def size(c):
    return sum(1 + size(x[2]) for x in c)
