import graphs
from world import *

LEVEL = "exploration"
RULE = ("Each case is a random graph of 2-6 versions with correct builds and patches of chosen sizes (in listings of an S3 remote up to 2^62), spread over a local store and a "
        "directory or S3 remote, and one to three installs. Per install the fetched names (files opened below the remote, or GET requests) "
        "are compared with the exact set given by an exhaustive search over all routes. Non-trivial: an upgrade from an installed version; "
        "counted distinct by route kind, length, fetched set size, number of pieces already local and remote kind.")
ASSUMPTIONS = ["the installed version's own build is in the local store",
               "where a piece has different sizes in the two stores either size may enter the comparison"]

BIG = [1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 52, 1 << 53, 1 << 61, (1 << 63) - 1, (1 << 63) - 1]


def cases(tier, rng):
    n = 2500 if tier == "quick" else 14000
    return [dict(kind="s3" if i % 8 == 7 else "dir", shape=i % 7) for i in range(n)] + [dict(kind="s3" if i % 8 == 7 else "dir", shape=7 if i % 6 else 8) for i in range(n // 8)] + [dict(kind="s3", shape=9) for i in range(n // 10)] + \
        [dict(kind="s3" if i % 8 == 7 else "dir", shape=10) for i in range(n // 8)] + [dict(kind="s3" if i % 3 == 2 else "dir", shape=11) for i in range(n // 40)]


def run(d, w, obs):
    rng = w.rng
    w.use(d["kind"])
    shape = d["shape"]
    if shape == 0:     # long chain, tiny patches
        g = graphs.gen(rng, k=rng.randint(4, 6), density=.1)
    elif shape == 1:   # dense
        g = graphs.gen(rng, k=rng.randint(3, 5), density=.9)
    elif shape == 2:   # sizes at the decision boundary
        g = boundary(rng)
    elif shape == 7:
        g = graphs.deep(rng, rng.randint(5, 12))
    elif shape == 8:
        g = graphs.deep(rng, rng.randint(60, 150))
    elif shape == 9:
        g = graphs.gen(rng, density=.7)
    elif shape == 10:
        g = graphs.tiny(rng)
    elif shape == 11:
        g = graphs.gen(rng, k=rng.randint(2, 4))
        graphs.heavy(rng, g)
    else:
        g = graphs.gen(rng)
    cur = rng.choice(g["vs"]) if rng.random() < .93 else None
    if shape in (2, 8, 10) or shape == 7 and rng.random() < .5:
        cur = g["vs"][0]
    graphs.place(rng, g, w, cur, plocal=rng.choice([.1, .3, .6]), pboth=rng.choice([.2, .8]), differ=rng.choice([0, 0, .5]))
    if shape == 9:     # sizes that listings state, around the limits of number types
        one = rng.choice(BIG)
        for n, b in w.remote.files().items():
            w.srv.sizes[w.remote.key(n)] = min(rng.choice([len(b), len(b) + one, len(b) + rng.choice(BIG), one - 1, one, one * 2, rng.choice(BIG)]), (1 << 63) - 1)
    if cur:
        os.symlink(os.path.join(w.local, cur + ".tar.zst"), os.path.join(w.local, "current"))
    for step in range(rng.choice([1, 1, 2, 3])):
        cand = [v for v in g["vs"] if v != cur]
        t = g["vs"][-1] if shape in (2, 7, 8, 10) and step == 0 and cur != g["vs"][-1] else rng.choice(cand)
        nloc = sum(is_artefact(n) for n in os.listdir(w.local))
        want, how = graphs.route_oracle(w, g["vs"], cur, t)
        r = w.ok("install", t)
        got = frozenset(w.remote.fetched(r))
        if got not in want:
            raise Violation("upgrade %r -> %r (%s) fetched %s instead of %s" % (
                cur, t, how, sorted(got), " or ".join(str(sorted(x)) for x in want)))
        if d["kind"] == "s3":
            gets = [q["key"] for q in r.requests if q["kind"] == "GET"]
            for x in gets:
                if gets.count(x) > 1:
                    raise Violation("upgrade %r -> %r (%s) fetched %r %d times" % (cur, t, how, x, gets.count(x)))
        w.check_current(t)
        obs.count("upgrades_judged")
        obs.count("route_" + how if not how.startswith("chain") or int(how[5:]) < 5 else "route_chain5_to_19" if int(how[5:]) < 20 else "route_chain20_and_more")
        if cur:
            obs.key(how, len(got), nloc, d["kind"], len(want))
        if obs.sample is None:
            obs.sample = dict(files={n: len(b) for n, b in g["files"].items()}, current=cur, target=t, route=how, fetched=sorted(got))
        cur = t


def boundary(rng):
    """total patch size exactly at, one below and one above the size of the build"""
    k = rng.randint(2, 4)
    g = graphs.gen(rng, k=k, pad=False, density=0)
    g["files"] = {n: b for n, b in g["files"].items() if is_build(n)}
    g["pairs"] = list(zip(g["vs"], g["vs"][1:]))
    tot = 0
    for a, b in g["pairs"]:
        p = zs.compress(bpatch.encode(g["truth"][a], g["truth"][b])) + zs.skippable(rng.randint(8, 99))
        g["files"][patch_name(a, b)] = p
        tot += len(p)
    n = g["vs"][-1] + ".tar.zst"
    want = tot + rng.choice([-1, 0, 1, 2])
    d = g["files"][n]
    if want < len(d) + 8:
        # make the chain larger instead
        a, b = g["pairs"][0]
        g["files"][patch_name(a, b)] += zs.skippable(len(d) + 8)
        want += len(d) + 8
    g["files"][n] = d + zs.skippable(want - len(d))
    return g
