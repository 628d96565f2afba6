import graphs
from world import *

LEVEL = "exploration"
RULE = ("Each case is a random graph of versions with correct builds and patches over both stores and a random history of commands on two "
        "machines (install, create-patch, add, sync); after every command the decompressed content of every build and the effect of every "
        "patch in both stores is compared with the published content. Distinct by graph shape, history of command kinds and route taken.")
ASSUMPTIONS = ["a version is published once: both stores hold the same content under the same version name"]


def cases(tier, rng):
    n = 1600 if tier == "quick" else 9000
    return [dict(kind="s3" if i % 6 == 5 else "dir", shape=i % 5) for i in range(n)] + [dict(kind="s3" if i % 6 == 5 else "dir", shape=5) for i in range(n // 16)] + [dict(kind="s3" if i % 3 == 2 else "dir", shape=6) for i in range(n // 50)]


def run(d, w, obs):
    rng = w.rng
    w.use(d["kind"])
    g = graphs.gen(rng, k=rng.randint(3, 6), density=rng.choice([.15, .5]), pad=rng.random() < .5)
    if d["shape"] == 5:
        g = graphs.deep(rng, rng.choice([5, 8, 8, 12, 40]))
    truth = g["truth"]
    if d["shape"] == 6:
        graphs.heavy(rng, g)
    if d["shape"] == 0:
        # builds far larger than patches, so that chains are always taken
        for v in g["vs"]:
            g["files"][v + ".tar.zst"] += zs.skippable(200000)
    cur = rng.choice(g["vs"]) if rng.random() < .8 else None
    graphs.place(rng, g, w, cur, plocal=rng.choice([0, .3, .6]), pboth=rng.choice([.2, .8]))
    m2 = w.machine("local2")
    curs = {w.local: cur, m2: None}
    if cur:
        os.symlink(os.path.join(w.local, cur + ".tar.zst"), os.path.join(w.local, "current"))
    hist = []
    for step in range(rng.randint(2, 6)):
        loc = w.local if rng.random() < .7 else m2
        op = rng.choice(["install"] * 5 + ["patch", "sync", "add"])
        L, R = w.lfiles(loc), w.remote.files()
        known = [v for v in g["vs"] if v + ".tar.zst" in L or v + ".tar.zst" in R]
        if op == "install" and known:
            t = rng.choice(known)
            before = set(L)
            w.ok("install", t, local=loc)
            w.check_current(t, loc)
            new = set(w.lfiles(loc)) - before
            hist.append(("i", sum(map(is_patch, new)), sum(map(is_build, new))))
            obs.count("installs_judged")
            if any(map(is_patch, new)):
                obs.count("installs_via_fetched_patches")
            curs[loc] = t
        elif op == "patch" and len(known) >= 2:
            a, b = rng.sample(known, 2)
            w.ok("create-patch", a, b, local=loc)
            hist.append("p")
        elif op == "sync":
            w.ok("sync", local=loc)
            hist.append("s")
        elif op == "add":
            v = rng.choice([n for n in NAMES if n not in truth])
            truth[v] = mutate(rng, truth[g["vs"][-1]])
            f = os.path.join(w.src, v + ".tar.zst")
            write(f, zs.pack(truth[v], rng))
            args = ["add", f]
            if known and rng.random() < .5:
                args += ["--calc-patch-from", rng.choice(known)]
            if rng.random() < .4:
                args.append("--upload")
            w.ok(*args, local=loc)
            g["vs"].append(v)
            hist.append("a%d" % len(args))
        for l in (w.local, m2):
            w.check_artefacts(w.lfiles(l), truth, "local store after %s" % (hist[-1:],))
            if curs[l]:
                w.check_current(curs[l], l, "after other commands")
        w.check_artefacts(w.remote.files(), truth, "remote after %s" % (hist[-1:],))
    obs.key(d["kind"], len(g["vs"]), len(g["pairs"]), hist)
    obs.sample = dict(versions=g["vs"], patches=[patch_name(*p) for p in g["pairs"]], history=[str(h) for h in hist])
