"""C25: builds of the library with different features give the same results"""
import os
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK = ["", "derive", "base64", "line-numbers,minicbor", "derive,base64,line-numbers", "derive,base64,line-numbers,minicbor"]
FEATURES = ["derive", "base64", "line-numbers", "minicbor"]


def combos(tier):
    if tier == "quick":
        return QUICK
    return [",".join(f for i, f in enumerate(FEATURES) if n >> i & 1) for n in range(16)]


def run(check):
    t0 = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    manifest = os.path.join(ROOT, "harness", "cfgdump", "Cargo.toml")
    exes = []

    def build(f):
        target = os.path.join(ROOT, "target", "cfg", f.replace(",", "-") or "none")
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path", manifest,
                            "--no-default-features", "--features", f],
                           env=dict(env, CARGO_TARGET_DIR=target),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return f, os.path.join(target, "release", "cfgdump"), r

    with ThreadPoolExecutor(6) as pool:
        builds = list(pool.map(build, combos(check.tier)))
    for f, exe, r in builds:
        if r.returncode != 0:
            from check import repo_builds
            if repo_builds()[0]:
                check.violation("with features [%s] the library or code that uses it does not build\n%s" % (f, r.stdout[-6000:]),
                                "build-" + f.replace(",", "-"))
                continue
            print(r.stdout[-3000:])
            check.error = True
            return
        exes.append((f, exe))
    count = 6000 if check.tier == "quick" else 300000
    first = {}          # section -> (features, lines)
    compared, texts, b64 = {}, set(), 0
    problems = 0

    def show(exe, i):
        return subprocess.run([exe, str(check.seed), str(count), str(i)], stdout=subprocess.PIPE, text=True, errors="replace").stdout

    for f, exe in exes:
        r = subprocess.run([exe, str(check.seed), str(count)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode != 0:
            check.violation("build with [%s] ends with %s\n%s" % (f, r.returncode, r.stderr[-3000:]), "run-" + f.replace(",", "-"))
            continue
        for line in r.stdout.splitlines():
            i, rest = line.split("\t", 1)
            for s in rest.split("\t"):
                k, v = s.split("=", 1)
                if k == "violation":
                    if problems < 5:
                        check.violation("build with [%s]: %s\n%s" % (f, v, show(exe, i)), "%s-%s" % (f.replace(",", "-"), i))
                    problems += 1
                    continue
                if k == "base64":
                    b64 += 1
                    continue
                if k == "text":
                    texts.add(v)
                key = (i, k)
                if key not in first:
                    first[key] = (exe, f, v)
                    continue
                e0, f0, v0 = first[key]
                compared[k] = compared.get(k, 0) + 1
                if v != v0:
                    if problems < 5:
                        check.violation("%s differs between builds with [%s] and [%s]\n--- [%s]\n%s\n--- [%s]\n%s" %
                                        (k, f0, f, f0, show(e0, i), f, show(exe, i)), "%s-%s-%s" % (k.replace(" ", "-"), f.replace(",", "-"), i))
                    problems += 1
    n = sum(compared.values())
    obs = {"results compared: " + k: v for k, v in sorted(compared.items())}
    obs["builds"] = len(exes)
    obs["documents that mention base64, over builds"] = b64
    check.parts.append(("cfgdump", {"violations": problems, "wall_s": time.time() - t0, "coverage": {
        "evaluations": n, "distinct_nontrivial": len(texts), "observed": obs,
        "rule": "distinct texts; each processed by every build and compared with the first build that has the section",
        "samples": ["features [%s]" % f for f, _ in exes]}}))
