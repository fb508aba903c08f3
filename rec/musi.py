"""Histories of spec/UsiModel, printed by TLC, replayed on the real USI client."""
import json
import os
import shutil
import signal

import p17

BEH = [json.loads(x) for x in open(os.environ["VERIF_BEHAVIOURS"], encoding="utf-8")]


def session(s, i, rng, tier):
    signal.signal(signal.SIGALRM, p17._alarm)
    if p17.HUNG:
        return
    d = os.path.abspath("mu%d" % i)
    try:
        p17.talk(s, rng, d, [[(f, q, die) for f, q, die in BEH[i]["log"]]], rng.choice(["", "\r"]), False, rng.random() < 0.25)
    finally:
        shutil.rmtree(d, ignore_errors=True)
