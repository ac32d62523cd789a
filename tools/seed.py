#!/usr/bin/env python3
"""Makes planted bugs under /verif/seeded from a list of edits (not used by checks).

seed.py BUGS.py [ID..]: BUGS.py defines BUGS = {id: dict(property, edits=[(file, old, new)],
needs, breaks, demo, features)}. A bug is stored only after a scratch worktree shows that it
builds, passes the stable tests, and that its demo tells the two trees apart.
"""
import json, os, runpy, shutil, subprocess, sys

WT = "/tmp/seed/wt"
TGT = "/tmp/seed/target"
OUT = "/verif/seeded"

DEMO_SH = """#!/bin/bash
# builds demo.rs against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
dir=$(mktemp -d); trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src" && cp "$here/demo.rs" "$dir/src/main.rs" && cp "$here/demo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
knuffel = { path = "$repo", default-features = false, features = [%s] }
miette = { version = "5.1.1", features = ["fancy"] }
%s
[workspace]
EOF
cd "$dir" && CARGO_TARGET_DIR="$dir/target" timeout 280 cargo run --offline -q 2>&1 | tail -20
exit ${PIPESTATUS[0]}
"""

# the demo compiles, and does not with the feature `bad` (a declaration that has to be rejected)
REJECT_SH = DEMO_SH.replace("[dependencies]", "[features]\nbad = []\n[dependencies]").replace(
    """timeout 280 cargo run --offline -q 2>&1 | tail -20
exit ${PIPESTATUS[0]}""", """timeout 280 cargo run --offline -q || exit 3
if CARGO_TARGET_DIR="$dir/target" timeout 280 cargo run --offline -q --features bad; then
    echo "the declaration is accepted"; exit 1
fi
exit 0""")


def run(cmd, cwd=WT, **kw):
    e = dict(os.environ); e["CARGO_NET_OFFLINE"] = "true"; e["CARGO_TARGET_DIR"] = TGT
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def reset():
    if not os.path.exists(WT):
        os.makedirs("/tmp/seed", exist_ok=True)
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "--detach", WT, "HEAD"], stdout=subprocess.DEVNULL)
    subprocess.check_call(["git", "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()], cwd=WT)
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=WT)


def original_lines(patch):
    """Lines removed or (for pure insertions) neighbours must be of the first commit"""
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    bad, cur = [], None
    cache = {}
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            cache[cur] = set(subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + cur], text=True).splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:] not in cache[cur]:
                bad.append(l)
    return bad


def make(bid, b, stable):
    reset()
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        n = s.count(old)
        if n != b.get("count", 1):
            return "edit of %s matches %d times: %r" % (f, n, old[:60])
        open(p, "w").write(s.replace(old, new))
    patch = subprocess.check_output(["git", "diff"], cwd=WT, text=True)
    bad = original_lines(patch)
    if bad:
        return "touches own lines: %s" % bad[:3]
    tmp = "/tmp/seed/" + bid
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/patch.diff", "w").write(patch)
    open(tmp + "/demo.rs", "w").write(b["demo"])
    feats = b.get("features", ["derive", "base64", "line-numbers"])
    open(tmp + "/demo.sh", "w").write((REJECT_SH if b.get("reject") else DEMO_SH) % (", ".join('"%s"' % f for f in feats), b.get("deps", "")))
    os.chmod(tmp + "/demo.sh", 0o755)
    shutil.copy("/tmp/seed/demo.lock", tmp + "/demo.lock")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(tmp + "/meta.json", "w"), indent=1)
    r = run(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "--", "--test-threads", "8"])
    log = "/tmp/seed/%s.log" % bid
    open(log, "w").write(r.stdout)
    res = "/tmp/seed/%s.json" % bid
    subprocess.run(["python3", "/opt/vp/results.py", res, "cargo:" + log], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        got = json.load(open(res))
    except Exception:
        return "no test results, see " + log
    passed = set(got.get("passed", []))
    failed = stable - passed
    if failed:
        return "tests fail: %s" % sorted(failed)[:6]
    r = run(["cargo", "build", "--workspace", "--no-default-features", "--offline"])
    if r.returncode:
        return "does not build without features: " + r.stdout[-600:]
    bad = run(["bash", tmp + "/demo.sh"])
    reset()
    good = run(["bash", tmp + "/demo.sh"])
    if good.returncode != 0:
        return "demo fails on the unchanged tree:\n" + good.stdout[-1500:]
    if bad.returncode == 0:
        return "demo passes with the patch"
    dst = os.path.join(OUT, bid)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(tmp, dst)
    return "kept (%s)" % bad.stdout.strip().splitlines()[-1][:100]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for bid in sys.argv[2:] or bugs:
        if not sys.argv[2:] and os.path.exists(os.path.join(OUT, bid)):
            continue
        print(bid, make(bid, bugs[bid], stable), flush=True)


if __name__ == "__main__":
    main()
