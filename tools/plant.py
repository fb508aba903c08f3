"""Confirms planted changes: tools/plant.py ID...   (tools/plant.py --save ID takes /repo's current diff as the patch)

For each: build + stable tests with the patch, the demonstration with and without it, and the property's quick check.
Always leaves /repo clean.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(ids, full=True):
    res = {}
    if os.environ.get("SKIPDEMO") is None:
        sh("bash /opt/vp/build.sh")
        for i in ids:
            d = f"{V}/seeded/{i}"
            r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
            res[i] = ["demo-clean=%d" % r.returncode]
            if r.returncode:
                print(r.stdout[-2000:])
    for i in ids:
        d = f"{V}/seeded/{i}"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        res.setdefault(i, [])
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode:
            res[i].append("DOES-NOT-APPLY")
            print(a.stdout)
            continue
        try:
            if os.environ.get("SKIPDEMO") is None:
                t = sh("bash /opt/vp/test.sh /tmp/plant.json")
                j = json.load(open("/tmp/plant.json"))
                miss = stable - set(j["passed"])
                res[i].append("tests=ok" if not miss else "TESTS-FAIL %s" % sorted(miss)[:3])
                if not j["passed"]:
                    print(t.stdout[-3000:])
                r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
                res[i].append("demo-bug=%d" % r.returncode)
                print(i, "demo:", r.stdout.strip()[-300:])
            if os.environ.get("NOCHECK") is None:
                t0 = time.time()
                r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {prop} --tier quick")
                res[i].append("check=%d %s (%.0fs)" % (r.returncode, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else "MISSED", time.time() - t0))
                if r.returncode not in (0, 1):
                    print(r.stdout[-1500:])
        finally:
            sh("git -C /repo checkout -- .")
        print(i, prop, res[i], flush=True)
    sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "--save":
        i = args[1]
        os.makedirs(f"{V}/seeded/{i}", exist_ok=True)
        open(f"{V}/seeded/{i}/patch.diff", "wb").write(subprocess.run(["git", "-C", "/repo", "diff", "--binary"], stdout=subprocess.PIPE).stdout)
        sh("git -C /repo checkout -- .")
        args = args[1:]
        if os.environ.get("ONLYSAVE"):
            sys.exit()
    main(args)
