#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [quick|thorough]

Builds the monitors from /repo's working tree, runs them, merges their
evidence. Exit 0: held on everything explored, 1: VIOLATION, 2: no answer.
"""
import json, os, resource, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
sys.path.insert(0, os.path.join(ROOT, "tools"))

AST = lambda p: [("astmon", ["--prop", p])]
DEC = lambda p: [("decmon", ["--prop", p])]
PLAN = {p: AST(p) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C19 C20 C21 C24".split()}
PLAN.update({p: DEC(p) for p in "C10 C11 C12 C13 C14 C15 C16 C17 C18 C22 C23".split()})
for p in "C10 C11 C12 C13 C14 C15 C16 C17 C18 C22 C23".split():
    PLAN[p] += [("corpora", ["--prop", p])]
PLAN["C05"] += [("deep", []), ("decmon", ["--prop", "C05"])]
PLAN["C25"] = [("cfg", [])]
PLAN["C26"] = [("decl", [])]


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def build(crate, log):
    """Builds a monitor; None if ok"""
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path",
                        os.path.join(ROOT, "harness", crate, "Cargo.toml")],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        return None
    with open(log, "w") as f:
        f.write(r.stdout)
    return r.stdout


def repo_builds():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "repo")
    r = subprocess.run(["cargo", "build", "--offline", "--features", "minicbor"], cwd=REPO, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.replays = os.path.join(ROOT, "replays")
        os.makedirs(self.replays, exist_ok=True)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        self.parts = []
        self.violated = False
        self.error = False
        self.known = [l.strip() for l in open(os.path.join(ROOT, "known_findings.txt"))
                      if l.startswith("known: property=%s " % prop)]

    def violation(self, text, name):
        p = os.path.join(self.replays, "%s-%s.txt" % (self.prop, name))
        with open(p, "w") as f:
            f.write(text)
        print(text[-3000:])
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        self.violated = True

    def step(self, crate, args):
        if crate == "deep":
            return self.deep()
        if crate == "cfg":
            import cfgmon
            return cfgmon.run(self)
        if crate == "decl":
            import declmon
            return declmon.run(self)
        if crate == "corpora":
            return self.corpora(args)
        log = os.path.join(self.replays, "%s-build.txt" % self.prop)
        out = build(crate, log)
        if out is not None:
            ok, rout = repo_builds()
            if ok:
                # types and calls that are part of the public interface don't compile
                errs = [l for l in out.splitlines() if l.startswith("error")]
                self.violation("the library builds, but code that uses it does not:\n" + "\n".join(errs[:20]) +
                               "\n" + out[-6000:], "build")
            else:
                print(rout[-3000:])
                print("error: /repo does not build", file=sys.stderr)
                self.error = True
            return
        self.monitor(crate, os.path.join(TARGET, "release", crate), args)

    def monitor(self, crate, exe, args, seed=None):
        ev = os.path.join(self.replays, "%s-%s-%d.evidence.json" % (self.prop, crate, len(self.parts)))
        if os.path.exists(ev):
            os.remove(ev)
        cmd = [exe] + args + [
            "--tier", self.tier, "--seed", str(self.seed if seed is None else seed), "--evidence", ev, "--replay-dir", self.replays]
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if r.returncode == 1:
            self.violated = True
        elif r.returncode < 0 and -r.returncode in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
            self.violation("%s was ended by signal %d\n%s" % (" ".join(cmd), -r.returncode, r.stderr[-3000:]), "signal")
        elif r.returncode == 101:
            # panics inside of cases are caught: the library broke the monitor itself
            self.violation("%s panicked\n%s" % (" ".join(cmd), r.stderr[-3000:]), "panic")
        elif r.returncode != 0:
            print(r.stderr[-3000:], file=sys.stderr)
            print("error: monitor exits with %d" % r.returncode, file=sys.stderr)
            self.error = True
        if os.path.exists(ev):
            with open(ev) as f:
                self.parts.append((crate, json.load(f)))
            os.remove(ev)

    def corpora(self, args):
        """Thorough tier: the same monitor over freshly generated derived types"""
        if self.tier != "thorough" or self.violated:
            return
        base = os.path.join(TARGET, "gen")
        for i in range(4):
            seed = 1000 * self.seed + i
            d = os.path.join(base, "%s-%d" % (self.prop, seed))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(os.path.join(d, "astmon"))
            shutil.copytree(os.path.join(ROOT, "harness", "decmon"), os.path.join(d, "decmon"))
            shutil.copytree(os.path.join(ROOT, "harness", "refmodel"), os.path.join(d, "refmodel"))
            shutil.copytree(os.path.join(ROOT, "harness", "astmon", "src"), os.path.join(d, "astmon", "src"))
            e = env()
            e["CARGO_TARGET_DIR"] = os.path.join(d, "target")
            r = subprocess.run([sys.executable, os.path.join(ROOT, "tools", "gen_types.py"), str(seed),
                                os.path.join(d, "decmon", "src")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path",
                                    os.path.join(d, "decmon", "Cargo.toml")], env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                ok, rout = repo_builds()
                if ok:
                    self.violation("generated types (seed %d) do not compile:\n%s" % (seed, r.stdout[-6000:]), "corpus-%d" % seed)
                else:
                    self.error = True
            else:
                self.monitor("decmon types %d" % seed, os.path.join(d, "target", "release", "decmon"), args, seed)
            shutil.rmtree(d, ignore_errors=True)

    def deep(self):
        """Nesting at a stack of 8 MB, each case in its own process"""
        t0 = time.time()
        exe = os.path.join(TARGET, "release", "astmon")
        if not os.path.exists(exe):
            return
        families = ["children", "unclosed", "comments", "open-comments", "slashdash", "decode"]
        n, samples = 0, []
        for f in families:
            for depth in (10, 60, 100, 20000):
                try:
                    r = subprocess.run([exe, "--prop", "C05", "--deep", f, str(depth)], stdout=subprocess.PIPE,
                                       stderr=subprocess.PIPE, text=True, timeout=600,
                                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (60, 60)))
                    code = r.returncode
                    out = r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    self.error = True  # the machine is too slow: the limit is on processor time
                    continue
                n += 1
                samples.append("%s nested %d deep: exit %s" % (f, depth, code))
                if code == 0:
                    continue
                what = "nested %s depth %d" % (f, depth)
                listed = [k for k in self.known if k.split(" ", 2)[2].startswith(what + ":")]
                if listed and code in (-6, -11):
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, listed[0].split(" ", 2)[2]))
                else:
                    self.violation("%s: exit %s\n%s" % (what, code, out[-2000:]), "deep-%s-%d" % (f, depth))
        self.parts.append(("deep", {"violations": 0, "wall_s": time.time() - t0, "coverage": {
            "evaluations": n, "distinct_nontrivial": n, "observed": {"nesting processes": n},
            "rule": "one process that parses one document nested to a given depth on a stack of 8 MB", "samples": samples[:6]}}))

    def run(self):
        t0 = time.time()
        for crate, args in PLAN[self.prop]:
            self.step(crate, args)
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "observed": {}}
        viol = 0
        for crate, e in self.parts:
            c = e["coverage"]
            cov["evaluations"] += c["evaluations"]
            cov["distinct_nontrivial"] += c["distinct_nontrivial"]
            cov["rule"] += ("; " if cov["rule"] else "") + "%s: %s" % (crate, c["rule"])
            cov["samples"] += c["samples"][:8]
            for k, v in c.get("observed", {}).items():
                cov["observed"]["%s: %s" % (crate, k)] = v
            viol += e.get("violations", 0)
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
               "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": max(viol, int(self.violated)),
               "assumptions": ["the reference model in /verif/harness/refmodel states the intended behaviour",
                               "only executions produced by the workloads are decided"]}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1, ensure_ascii=True)
            f.write("\n")
        if self.violated:
            return 1
        if self.error or cov["evaluations"] == 0:
            return 2
        return 0


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        print("usage: check.py ID [quick|thorough]; known: " + " ".join(sorted(PLAN)), file=sys.stderr)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return Check(sys.argv[1], tier, seed).run()


if __name__ == "__main__":
    sys.exit(main())
