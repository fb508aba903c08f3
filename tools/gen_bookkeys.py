"""Writes spec/bookkeys.json: the opening-book key components, from an independent mt19937_64 (seed 5489).
Order of the format: pieces 0..30 x squares 0..80, hand pieces P L N S G B R x counts 0..18, side to move.
Every 64-bit word is stored as four 16-bit limbs, most significant first."""
import json
import os

N, M, A = 312, 156, 0xB5026F5AA96619E9
UM, LM, W = 0xFFFFFFFF80000000, 0x7FFFFFFF, (1 << 64) - 1


def stream(seed=5489):
    mt = [seed]
    for i in range(1, N):
        mt.append((6364136223846793005 * (mt[-1] ^ (mt[-1] >> 62)) + i) & W)
    while True:
        for i in range(N):
            x = (mt[i] & UM) | (mt[(i + 1) % N] & LM)
            mt[i] = mt[(i + M) % N] ^ (x >> 1) ^ (A if x & 1 else 0)
        for x in mt:
            x ^= (x >> 29) & 0x5555555555555555
            x ^= (x << 17) & 0x71D67FFFEDA60000
            x ^= (x << 37) & 0xFFF7EEE000000000
            x ^= x >> 43
            yield x


def limbs(x):
    return [(x >> 48) & 0xffff, (x >> 32) & 0xffff, (x >> 16) & 0xffff, x & 0xffff]


g = stream()
piece = [[limbs(next(g)) for _ in range(81)] for _ in range(31)]
hand = [[limbs(next(g)) for _ in range(19)] for _ in range(7)]
turn = limbs(next(g))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "bookkeys.json")
with open(p, "w") as f:
    json.dump({"piece": piece, "hand": hand, "turn": turn}, f, separators=(",", ":"))
