import ops
from world import *

LEVEL = "exploration"
RULE = ("Each case makes the same package, patch or upgrade several times under different values of the compression setting (all levels from the fastest to the strongest, beyond both limits, unset, empty, "
        "not a number) on contents on which levels differ, and decodes every result independently. Judged: all results are complete and have the same content; the size is that which the system's own zstd "
        "reaches at this level (tolerance 2 %, or 5 % for patches and the strongest levels); values that are no level give byte for byte what an unset variable gives; values beyond a limit give what the limit gives; files that are only copied (add, "
        "fetch, sync) stay as they are; packages, patches and rebuilt builds made under different settings work together on two machines. Distinct by kind of content, action and set of levels.")
ASSUMPTIONS = ["two releases of zstd differ by less than 2 % (5 % above level 12) at the same level on the contents used"]
LEVELS = [-50, -7, -5, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]
NONE = [None, "", "abc", "1.5", "5 ", " 9", "2147483648", "-2147483649", "0x5", "1e1", "19x", "\udcff", "--3", "٣", "99999999999999999999", "fast"]
OVER = [("23", "22"), ("99", "22"), ("2147483647", "22"), ("-131073", "-131072"), ("-2147483648", "-131072"), ("+7", "7"), ("007", "7"), ("-05", "-5")]


def cases(tier, rng):
    n = 2 if tier == "quick" else 60
    cs = []
    for i in range(n):
        for a in ("pack", "pack", "patch", "patch", "rebuild", "auto"):
            for k in ("json", "words", "far", "log", "json"):
                cs.append(dict(act=a, kind=k, i=i))
        cs += [dict(act="mix", kind="json", i=i, r=r) for r in range(12)]
        cs += [dict(act="copy", kind=k, i=i) for k in ("json", "words")]
    cs += [dict(act="pack", kind="wide", i=i) for i in range(1 if tier == "quick" else 6)]
    cs += [dict(act=a, kind="span", i=i) for i in range(1 if tier == "quick" else 20) for a in ("pack", "rebuild")]
    return cs


def body(rng, kind):
    o, n = [], 0
    if kind == "json":
        size = rng.choice([50000, 90000])
        while n < size:
            x = b'{"id": %d, "name": "user%d", "mail": "%s@example.org"}\n' % (rng.randrange(10 ** 6), rng.randrange(500), rng.choice([b"foo", b"bar", b"bazz"]))
            o.append(x)
            n += len(x)
        return b"".join(o)
    if kind == "words":
        voc = [bytes(rng.choices(b"abcdefghijklmnop", k=rng.randint(2, 9))) for _ in range(3000)]
        size = rng.choice([60000, 120000])
        while n < size:
            x = rng.choice(voc[:rng.choice([50, 400, 3000])]) + b" "
            o.append(x)
            n += len(x)
        return b"".join(o)
    if kind == "log":
        size = 70000
        t = 1600000000
        while n < size:
            t += rng.randrange(9)
            x = b"%d [%s] %s(%d): %s\n" % (t, rng.choice([b"info", b"warn", b"debug"]), rng.choice([b"net", b"disk", b"ui"]), rng.randrange(64), rng.randbytes(4).hex().encode())
            o.append(x)
            n += len(x)
        return b"".join(o)
    if kind == "span":      # only the highest levels look back that far
        x = rng.randbytes(200000)
        return x + bytes(rng.choice([17, 17, 17, 33, 33, 70]) << 20) + x
    if kind == "wide":
        return rng.randbytes(5000000) * 2
    return rng.randbytes(rng.choice([60000, 540000])) * 2


_ref = {}


def judge_size(raw, got, level, what):
    want = len(zs.compress_blocks([raw], int(level))[0])
    if abs(len(got) - want) > want * (.05 if int(level) > 12 or "patch" in what else .02) + 64:
        raise Violation("%s at level %s: %d bytes, but zstd at this level makes it %d" % (what, level, len(got), want))


def pick(rng):
    ls = rng.sample(LEVELS if rng.random() < .3 else LEVELS[:-4], 2) + [rng.choice([1, 3, -5]), rng.choice([19, 20, 22, 16])]
    return [str(x) for x in dict.fromkeys(ls)]


def variants(w, rng, obs, make, what, heavy=False):
    """make(value) -> (compressed bytes, decoded meaning)"""
    results = {}
    if w.desc["kind"] == "span":
        values, heavy = ["22", rng.choice(["19", "20", "21"])], True
    else:
        values = (["1", "19"] if heavy else pick(rng)) + [None] + ([] if heavy else rng.sample(NONE[1:], 2))
    over = [] if heavy else [rng.choice(OVER[:3] if rng.random() < .25 else OVER[3:])]
    for v in values + [x for p in over for x in p]:
        if v not in results:
            results[v] = make(v)
    first = None
    for v, (data, meaning) in results.items():
        raw = zs.try_decompress(data)
        if raw is None:
            raise Violation("%s with the level %r is not complete zstd data" % (what, v))
        if first is None:
            first = v, meaning
        elif meaning != first[1]:
            raise Violation("%s: different contents with the levels %r and %r" % (what, first[0], v))
        if v not in NONE and v not in [p[0] for p in over]:
            judge_size(raw, data, v, what)
            obs.count("sizes_judged")
    for v in values:
        if v in NONE and results[v][0] != results[None][0]:
            raise Violation("%s: %r is no level, but makes a difference (%d and %d bytes)" % (what, v, len(results[v][0]), len(results[None][0])))
    for a, b in over:
        if results[a][0] != results[b][0]:
            raise Violation("%s: the level %s gives something else (%d bytes) than %s (%d bytes)" % (what, a, len(results[a][0]), b, len(results[b][0])))
    obs.count("results_compared", len(results))
    obs.key(what, w.desc["kind"], sorted(map(str, results)))
    obs.sample = dict(action=what, kind=w.desc["kind"], sizes={str(v): len(x[0]) for v, x in results.items()})


def setenv(v):
    return {"ARTEFACTA_COMPRESSION_LEVEL": v}


def run(d, w, obs):
    rng = w.rng
    w.use_dir()
    w.level = None
    c = body(rng, d["kind"])
    act = d["act"]
    k = [0]

    def fresh():
        k[0] += 1
        return w.machine("m%d" % k[0])
    if act == "pack":
        t = os.path.join(w.src, "t")
        os.mkdir(t)
        write(os.path.join(t, "a"), c)
        if rng.random() < .5:
            write(os.path.join(t, "b"), c[:1000])
        src = t if rng.random() < .6 else os.path.join(t, "a")

        def make(v):
            m = fresh()
            w.ok("add-package", "1", src, local=m, env=setenv(v))
            b = w.lfiles(m)["1.tar.zst"]
            return b, zs.try_decompress(b)
        return variants(w, rng, obs, make, "a package", d["kind"] == "wide")
    if act in ("patch", "auto"):
        # the patch holds new content, so that there is something to compress
        old, new = c[:2000], c
        truth = {"1.0.1": old, "1.0.2": new}
        w.remote.put("1.0.1.tar.zst", zs.compress(old))
        w.remote.put("1.0.2.tar.zst", zs.compress(new))
        pn = "1.0.1-1.0.2.patch.zst"
        if act == "auto":
            repo = os.path.join(w.src, "repo")
            os.mkdir(repo)
            ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"], ["tag", "1.0.1"])
        how = rng.choice(["create", "calc"])

        def make(v):
            m = fresh()
            if act == "auto":
                w.ok("auto-patch", "--repo-root", repo, "1.0.2", local=m, env=setenv(v))
            elif how == "create":
                w.ok("create-patch", "1.0.1", "1.0.2", local=m, env=setenv(v))
            else:
                f = os.path.join(w.src, "1.0.2.tar.zst")
                write(f, zs.compress(new))
                w.ok("add", f, "--calc-patch-from", "1.0.1", local=m, env=setenv(v))
            b = w.lfiles(m)[pn]
            w.check_patch(pn, b, truth, "level %r" % v)
            return b, None
        return variants(w, rng, obs, make, "a patch")
    if act == "rebuild":
        old, new = c[:3000], c
        p = zs.compress_blocks([bpatch.encode(old, new, rng, 3)], 22)[0]
        w.remote.put("1.tar.zst", zs.compress(old))
        w.remote.put("2.tar.zst", zs.compress(new) + zs.skippable(len(p) + 1000))
        w.remote.put("1-2.patch.zst", p)

        def make(v):
            m = fresh()
            write(os.path.join(m, "1.tar.zst"), zs.compress_blocks([old], 22)[0])
            os.symlink(os.path.join(m, "1.tar.zst"), os.path.join(m, "current"))
            r = w.ok("install", "2", local=m, env=setenv(v))
            if w.remote.fetched(r) != ["1-2.patch.zst"]:
                raise Violation("level %r: fetched %s instead of the patch" % (v, w.remote.fetched(r)))
            b = w.lfiles(m)["2.tar.zst"]
            return b, zs.try_decompress(b) == new
        variants(w, rng, obs, make, "a build from a patch")
        return
    if act == "copy":
        b = zs.pack(c, rng)
        f = os.path.join(w.src, "1.tar.zst")
        write(f, b)
        for v in pick(rng) + rng.sample(NONE, 2):
            m, m2 = fresh(), fresh()
            for n in list(w.remote.files()):
                w.remote.delete(n)
            w.ok("add", f, local=m, env=setenv(v))
            w.ok("sync", local=m, env=setenv(v))
            w.ok("install", "1", local=m2, env=setenv(v))
            for x in (w.lfiles(m), w.remote.files(), w.lfiles(m2)):
                if x.get("1.tar.zst") != b:
                    raise Violation("level %r: a copied build has been changed" % v)
            obs.count("copies_compared", 3)
        obs.key("copy", d["kind"], len(b))
        return
    # mix: whatever one machine makes another can use
    t = os.path.join(w.src, "t")
    os.mkdir(t)
    a, b = w.machine("a"), w.machine("b")
    vals = [str(rng.choice(LEVELS)) for _ in range(3)] + [rng.choice(NONE), rng.choice(["22", "19", "3"]), "-50"]
    truth = {}
    how = []
    for i in range(4):
        c = mutate(rng, c)
        write(os.path.join(t, "f"), c)
        v = rng.choice(vals)
        how.append(v)
        w.ok("add-package", str(i), t, *(["--calc-patch-from", str(i - 1)] if i else []), "--upload", local=a, env=setenv(v))
        truth[str(i)] = zs.try_decompress(w.lfiles(a)["%d.tar.zst" % i])
        if truth[str(i)] is None or c not in truth[str(i)]:
            raise Violation("package made with the level %r is not right" % v)
        if i == 0 or rng.random() < .5:
            v = rng.choice(vals)
            how.append(v)
            w.ok("install", str(i), local=b, env=setenv(v))
            w.check_current(str(i), b)
    w.ok("install", "3", local=b, env=setenv(rng.choice(vals)))
    w.check_current("3", b)
    for s, x in (("a", w.lfiles(a)), ("b", w.lfiles(b)), ("remote", w.remote.files())):
        w.check_artefacts(x, truth, "levels %s, %s" % (how, s))
    obs.count("mixed_histories")
    obs.key("mix", how)
