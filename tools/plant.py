"""Development tool (no check uses it): confirms planted bugs in a scratch copy and stores them under seeded/.

    plant.py FILE [ID...]        FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
    plant.py --try FILE [ID...]  also runs the property's check against the scratch copy with the change
    plant.py --check ID...       runs the check of a stored bug

A change has to touch lines of the original repository (base commit), build, pass the stable tests, and its
demonstration has to pass without and fail with it."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WT = "/tmp/plant-wt"
BASE = "6b0ec23"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")


def sh(cmd, cwd=WT, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def fresh():
    head = sh(["git", "rev-parse", "HEAD"], cwd="/repo").stdout.strip()
    if not os.path.isdir(WT) or sh(["git", "rev-parse", "HEAD"]).stdout.strip() != head:
        shutil.rmtree(WT, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", WT], check=True)
    sh(["git", "checkout", "-q", "--", "."])
    sh(["git", "clean", "-fdq"])


def build():
    return sh(["cargo", "test", "--workspace", "--no-run", "--offline", "--locked"])


def tests():
    p = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--locked", "--", "--test-threads", "8"])
    open("/tmp/plant-wt.log", "w").write(p.stdout)
    out = "/tmp/plant-wt.json"
    subprocess.run(["python3", "/opt/vp/results.py", out, "cargo:/tmp/plant-wt.log"], stdout=subprocess.DEVNULL)
    got = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
    have = set(got.get("passed", []))
    sh(["git", "checkout", "-q", "--", "proptest-regressions"])
    return sorted(want - have), len(want)


def demo(d):
    return sh(["bash", os.path.join(d, "demo.sh")], timeout=300)


def blame_ok(diff):
    """every removed line must come from the base commit"""
    bad = []
    f = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            orig = sh(["git", "show", BASE + ":" + f]).stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---") and line[1:] not in orig:
            bad.append(f + ": " + line)
    return bad


def check(prop, env=None):
    e = dict(os.environ, VF_REPO=WT, VF_TARGET="/tmp/plant-target", VERIF_SEED="1", VERIF_TIER="quick", VF_MAXBAD="1", **(env or {}))
    if not os.path.isdir("/tmp/plant-target"):
        subprocess.run(["cp", "-a", os.path.join(VERIF, "target"), "/tmp/plant-target"], check=True)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    keep = open(ev).read() if os.path.exists(ev) else None
    p = subprocess.run(["python3", os.path.join(VERIF, "vf/main.py"), prop], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if keep:
        open(ev, "w").write(keep)
    return p.returncode, p.stdout


def verdict(prop):
    rc, out = check(prop)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + prop)]
    if rc == 1 and v:
        i = out.index(v[0])
        return "CAUGHT: " + out[i:].split("\n", 2)[1][:200]
    return "MISSED rc=%d %s" % (rc, out[-300:] if rc != 0 else "")


def main():
    a = sys.argv[1:]
    if a[0] == "--check":
        for i in a[1:]:
            fresh()
            d = os.path.join(VERIF, "seeded", i)
            assert sh(["git", "apply", os.path.join(d, "patch.diff")]).returncode == 0, i
            print(i, verdict(json.load(open(d + "/meta.json"))["property"]), flush=True)
        return
    if a[0] == "--probe":      # FILE defines PROBES = [(id, property, [(file, old, new), ...]), ...]: no demonstration, nothing is kept
        ns = {}
        exec(open(a[1]).read(), ns)
        for i, prop, edits in ns["PROBES"]:
            if len(a) > 2 and i not in a[2:]:
                continue
            print(i, prop, probe(prop, edits), flush=True)
        return
    tryit = a[0] == "--try"
    if tryit:
        a = a[1:]
    ns = {}
    exec(open(a[0]).read(), ns)
    for b in ns["BUGS"]:
        if len(a) > 1 and b["id"] not in a[1:]:
            continue
        try:
            print(b["id"], one(b, tryit), flush=True)
        except Exception as e:
            print(b["id"], "ERROR", repr(e)[:600], flush=True)


def probe(prop, edits):
    fresh()
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s matches %d times: %s" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    r = build()
    if r.returncode:
        return "does not build: " + r.stdout[-900:]
    miss, n = tests()
    if miss:
        return "breaks tests: %s" % miss[:4]
    return " ".join("[%s] %s" % (x, verdict(x)) for x in prop.split())


def one(b, tryit):
    fresh()
    d = "/tmp/plant-demo/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "demo"), d, ignore=shutil.ignore_patterns("__pycache__"))
    open(d + "/demo.py", "w").write("from demolib import *\n" + b["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    if "s3(" not in b["demo"]:
        os.unlink(d + "/s3.py")
        if "VF_" not in b["demo"]:
            os.unlink(d + "/shim.c")
    os.path.exists(d + "/netshim.c") and os.unlink(d + "/netshim.c")
    r = build()
    if r.returncode:
        return "base does not build"
    r = demo(d)
    if r.returncode != 0:
        return "demo fails on the unchanged tree: " + r.stdout[-800:]
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s matches %d times" % (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"]).stdout
    bad = blame_ok(diff)
    if bad:
        return "changes lines that are not original: %s" % bad
    r = build()
    if r.returncode:
        return "does not build: " + r.stdout[-1500:]
    r = demo(d)
    if r.returncode == 0:
        return "demo passes with the change"
    how = r.stdout[-150:].strip()
    miss, n = tests()
    if miss:
        return "breaks tests: %s" % miss[:4]
    dst = os.path.join(VERIF, "seeded", b["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst, ignore=shutil.ignore_patterns("__pycache__"))
    open(dst + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(dst + "/meta.json", "w"), indent=1)
    res = "kept (%d tests; demo: %s)" % (n, how)
    if tryit:
        res += "\n    " + verdict(b["property"])
    return res


if __name__ == "__main__":
    main()
