import random
import trees
from world import *

LEVEL = "exploration"
RULE = ("Each case makes the same tree (relative paths, contents, modes) several times, each time varying location, creation and directory "
        "order, time stamps, owners, link counts, clock, time zone, locale, umask, working directory, form of the source path, version name "
        "and options, partly with several processes at once, and compares the published bytes. Distinct by tree shape and set of varied "
        "respects; every comparison is one evaluation of the oracle.")
ASSUMPTIONS = ["the compression level is the same for the compared runs"]


def cases(tier, rng):
    n = 1300 if tier == "quick" else 5000
    return [dict(mode=["tree", "tree", "tree", "file", "par"][i % 5], level=rng.choice(["1", "1", "1", "3", "7", None])) for i in range(n)]


def variant(w, rng, t, i, single, idx):
    """makes the source once more; returns the arguments of run() and what was varied"""
    r = random.Random("%s-%d" % (rng.random(), i))
    up = os.path.join(w.src, *[r.choice(["a", "bb", "c c", "é", "x.tar"]) for _ in range(r.randint(0, 4))], "v%d" % i)
    top = os.path.join(up, r.choice(["pkg", "other", "zz", "1"]))
    order = sorted(t)
    r.shuffle(order)
    trees.make(top, t, order=order, mtime=lambda: r.choice([0, 1, r.randrange(2 ** 31), 2 ** 33 + r.randrange(1000), -r.randrange(1, 2 ** 31), r.random() * 1e9]),
               owner=lambda: (r.choice([0, 1, 1000, 65534, 2 ** 21 + 5]), r.choice([0, 5, 100, 70000])))
    varied = {"place", "order", "mtime", "owner"}
    btop = os.fsencode(top)
    if r.random() < .5 and t:     # further hard links elsewhere raise the link counts
        for k, p in enumerate(r.sample(sorted(t), min(3, len(t)))):
            os.link(os.path.join(btop, p), os.path.join(w.ctl, "hl%d-%d" % (i, k)))
        varied.add("nlink")
    for p in sorted(t):
        f = os.path.join(btop, p)
        st = os.lstat(f)
        b = t[p][1]
        if len(b) >= 4096 and b.count(0) == len(b) and r.random() < .6:       # with holes in place of zeros
            os.truncate(f, 0)
            os.truncate(f, len(b))
            varied.add("sparse")
        elif b and r.random() < .1:        # more room on the disk than needed
            with open(f, "r+b") as fh:
                os.posix_fallocate(fh.fileno(), 0, len(b))
        if r.random() < .15:
            try:
                os.setxattr(f, r.choice([b"user.mime_type", b"user.x"]), b"v%d" % i)
                varied.add("xattr")
            except OSError:
                pass
        os.utime(f, ns=(r.randrange(2 ** 60), st.st_mtime_ns))
    if r.random() < .4:           # leftovers of deleted files change directory order and inodes
        for k in range(5):
            p = os.path.join(btop, b"gone%d" % k)
            write(p, b"x")
            os.unlink(p)
    if r.random() < .4:
        for dp, ds, fs in os.walk(btop):
            os.chmod(dp, r.choice([0o755, 0o700, 0o775, 0o2755]))
            os.utime(dp, (r.randrange(2 ** 31),) * 2)
        varied.add("dirmeta")
    src = os.path.join(top, os.fsdecode(single)) if single is not None else top
    kw = {}
    k = r.randrange(5)
    if k == 0 and single is None:
        src += "/"
    elif k == 1:
        ln = os.path.join(w.root, "ln%d" % i)
        if single is None:
            os.symlink(src, ln)
            src = ln
    elif k == 2:
        kw["cwd"] = up
        src = os.path.relpath(src, up)
        varied.add("cwd")
    elif k == 3 and single is None:
        kw["cwd"] = top
        src = "."
        varied.add("cwd")
    env = {}
    if r.random() < .7:
        env.update(TZ=r.choice(["UTC", "Asia/Tokyo", "America/New_York"]), LC_ALL=r.choice(["C", "C.UTF-8", "de_DE.UTF-8"]),
                   LANG=r.choice(["C", "tr_TR.UTF-8"]), USER=r.choice(["a", "b"]), LOGNAME=r.choice(["a", "b"]), HOSTNAME="h%d" % i, SOURCE_DATE_EPOCH=str(r.randrange(10 ** 9)))
        varied.add("env")
    if r.random() < .3:
        env["RUST_LOG"] = r.choice(["trace", "error", "artefacta=debug"])
    shim = dict(readdir=r.randrange(10 ** 6))
    if r.random() < .7:
        shim["time"] = r.choice([-10 ** 9, 3, 86400 * 400, 10 ** 8])
        varied.add("clock")
    loc = w.machine("l%d" % i)
    ver = r.choice(["1", "v1.2.%d" % i, "long-version-name-%d" % i])
    args = ["add-package", ver, src]
    if r.random() < .2:
        args.append("--upload")
        ver2 = ver + "u%d" % i
        args[1] = ver = ver2
    if r.random() < .2:
        args.insert(0, "--verbose")
    kw.update(local=loc, env=env, shim=shim, umask=r.choice([-1, 0, 0o77, 0o27]))
    varied.add("umask")
    return args, kw, loc, ver, varied


def run(d, w, obs):
    rng = w.rng
    w.use_dir()
    w.level = d["level"]
    while True:
        t = trees.gen(rng, big=rng.random() < .06)
        if not any(not trees.ok(p) and len(p) > 99 for p in t):
            break
    if rng.random() < .3:
        t = {p: x for p, x in t.items() if not p.startswith(b"zeros")}
        t[b"zeros"] = (rng.choice([0o644, 0o755]), bytes(rng.choice([4096, 10000, 70000])))
    single = None
    if d["mode"] == "file":
        c = [p for p in t if trees.ok(p) and b"/" not in p]
        if not c:
            t = {b"only": (0o640, b"data")}
            c = [b"only"]
        single = rng.choice(c)
    n = rng.randint(3, 5)
    vs = [variant(w, rng, t, i, single, i) for i in range(n)]
    if d["mode"] == "par":
        hs = [w.start(*a, **k) for a, k, *_ in vs]
        rs = [w.finish(h) for h in hs]
    else:
        rs = [w.run(*a, **k) for a, k, *_ in vs]
    first = None
    for r, (a, k, loc, ver, varied) in zip(rs, vs):
        if not r.ok:
            raise Violation("packaging failed for one of several equal sources: %s" % r)
        data = w.lfiles(loc).get(ver + ".tar.zst")
        if data is None:
            raise Violation("no build after %s" % r)
        if first is None:
            first = (data, a, k)
        elif data != first[0]:
            x, y = zs.try_decompress(first[0]) or b"", zs.try_decompress(data) or b""
            at = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            raise Violation("equal sources, different builds (%d and %d bytes, archives differ at %d):\n%r\n%r" % (len(first[0]), len(data), at, first[1:], (a, k)))
        else:
            obs.count("pairs_compared")
            obs.key(d["mode"], d["level"], sorted(varied), len(t), sum(len(v[1]) for v in t.values()))
    obs.sample = dict(mode=d["mode"], files=len(t), varied=sorted(vs[-1][4]))
