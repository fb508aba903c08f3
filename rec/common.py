"""Recorder framework: runs sessions of calls against the real library and writes them as ndjson."""
import importlib
import json
import os
import random
import sys
import traceback

import ref


class Session:
    def __init__(self):
        self.ev = []

    def emit(self, op, **fields):
        e = {"op": op}
        for k, v in fields.items():
            e[k] = norm(v)
        self.ev.append(e)
        return e


def norm(v):
    """Only types TLC can compare: ints (32 bit), strings, sequences, records."""
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        if not -2**31 <= v < 2**31:
            return "0x%x" % (v & (2**64 - 1))
        return v
    if isinstance(v, bytes):
        return v.decode("latin-1")
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if v is None:
        return "None"
    if isinstance(v, float):
        return repr(v)
    try:
        return [norm(x) for x in v]
    except TypeError:
        return norm(int(v))


def h64(v):
    return "0x%016x" % (v & (2**64 - 1))


def record(mod, rec, seed, i, k, tier):
    """The k-th recording of session i."""
    rng = random.Random("%s:%s:%d" % (rec, seed, i) + (":%d" % k if k else ""))
    s = Session()
    try:
        mod.session(s, i, rng, tier)
    except Exception as e:                       # an exception nobody asked for
        tb = traceback.extract_tb(e.__traceback__)
        where = [x for x in tb if x.filename.startswith("/verif") or "/rec/" in x.filename]
        s.emit("exception", kind=type(e).__name__, msg=str(e)[:300],
               at="%s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else "")
    return s.ev


def strange(mod, ev):
    """Worth the specification's time: see ref.py."""
    try:
        return getattr(mod, "odd", ref.odd)(ev)
    except Exception as e:
        return repr(e)


def main():
    rec, seed, tier, shard, shards, start, n, out = sys.argv[1:9]
    only = int(sys.argv[9]) if len(sys.argv) > 9 else None
    shard, shards, start, n = int(shard), int(shards), int(start), int(n)
    mod = importlib.import_module(rec)
    screen = int(os.environ.get("VERIF_SCREEN") or 1)
    idx = [only] if only is not None else [i for i in range(shard, n, shards) if i >= start]
    with open(out, "a", encoding="utf-8") as f:
        for i in idx:
            f.write(json.dumps({"begin": i}) + "\n")
            f.flush()
            ev, tries = None, 0
            for k in range(screen):
                got = record(mod, rec, seed, i, k, tier)
                tries += 1
                odd = screen > 1 and strange(mod, got)
                if ev is None or odd:
                    ev = got
                if odd:
                    break
            f.write(json.dumps({"i": i, "ev": ev, "tries": tries, "odd": odd}, ensure_ascii=True) + "\n")
        f.write(json.dumps({"end": True}) + "\n")
        f.flush()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)                # a stuck thread of the code under test must not keep the recorder alive
