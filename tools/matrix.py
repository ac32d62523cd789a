#!/usr/bin/env python3
"""Runs checks against planted bugs (not used by checks): matrix.py [--all] [ID..]

Applies /verif/seeded/ID/patch.diff to /repo, runs the check of its property (or, with --all, of
every property) and undoes it. Results go to /tmp/seed/matrix.json.
"""
import json, os, subprocess, sys, time

RES = "/tmp/seed/matrix.json"


def main():
    every = "--all" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    for i in ids:
        d = "/verif/seeded/" + i
        prop = json.load(open(d + "/meta.json"))["property"]
        subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        try:
            for p in props if every else [prop]:
                t = time.time()
                r = subprocess.run(["python3", "/verif/check.py", p, "quick"], cwd="/verif",
                                   env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                open("/tmp/seed/%s.%s.out" % (i, p), "w").write(r.stdout)
                res.setdefault(i, {})[p] = (r.returncode, len(v), round(time.time() - t))
                if p == prop or r.returncode:
                    print(i, p, "CAUGHT" if r.returncode == 1 and v else "missed rc=%d" % r.returncode, len(v), "%ds" % (time.time() - t), flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        json.dump(res, open(RES, "w"), indent=1)


main()
