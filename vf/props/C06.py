from world import *
import s3 as s3mod

LEVEL = "fault_enumeration"
RULE = ("Each case is an upgrade whose cheapest route is a chain of 1-4 patches, one or more of which are damaged (cut at every length, cut at "
        "compressed-block ends that coincide with control ends, noise, compressed noise, wrong header, impossible ranges, vanished or failing "
        "after listing, failing transfers), with the target build obtainable or not. Judged: exit status, content of every local build, "
        "`current`. Distinct by kind of damage, position, chain length, place of the patch, remote kind and cut position.")
ASSUMPTIONS = ["damage that turns a patch into another well-formed patch is not detectable (the format has no checksum) and is not generated"]
KINDS = ["cut", "cutall", "blockcut", "noise", "zmagic", "znoise", "text", "header", "version", "headnoise", "range", "other", "vanish", "eio", "short", "seekneg",
         "lastbyte", "zerofill", "eacces", "emptyframe", "rawcut"]
S3KINDS = ["404", "500", "403", "drop", "cutbody", "wrongetag", "shortlen", "noetag", "cut", "noise", "hang-free-flip"]


def cases(tier, rng):
    n = 24 if tier == "quick" else 300
    cs = [dict(kind=k, remote="dir", obtain=j % 4 != 3, i=j) for j in range(n) for k in KINDS]
    cs += [dict(kind=k, remote="s3", obtain=j % 4 != 3, i=j) for j in range(max(4, n // 2)) for k in S3KINDS]
    return cs


def damaged(rng, kind, patch, raw, old):
    """-> list of damaged versions of the patch file"""
    if kind == "cut":
        return [patch[:rng.randrange(1, len(patch))] for _ in range(4)]
    if kind == "cutall":
        ks = list(range(1, len(patch)))
        if len(ks) > 60:
            ks = sorted(rng.sample(ks, 60))
        return [patch[:k] for k in ks]
    if kind == "lastbyte":
        return [patch[:-1], patch[:-2], patch[:-3]]
    if kind == "noise":
        return [rng.randbytes(rng.choice([1, 3, 4, 20, len(patch)]))]
    if kind == "zmagic":
        return [b"\x28\xb5\x2f\xfd" + rng.randbytes(rng.choice([0, 1, 5, 100]))]
    if kind == "text":
        return [b"404 not found\n", b"<html></html>", b"\n"]
    if kind == "znoise":
        return [zs.compress(rng.randbytes(rng.choice([1, 7, 8, 9, 100, 5000]))), zs.compress(rng.randbytes(200000))[:-5]]
    if kind == "header":
        r = bytearray(raw)
        r[rng.randrange(4)] ^= 1 << rng.randrange(8)
        return [zs.compress(r), zs.compress(raw[4:]), zs.compress(raw[8:])]
    if kind == "version":
        r = bytearray(raw)
        r[4 + rng.randrange(4)] ^= 1 << rng.randrange(8)
        return [zs.compress(r)]
    if kind == "emptyframe":
        return [zs.compress(b""), zs.compress(raw[:rng.randrange(1, 8)])]
    if kind == "rawcut":    # complete compressed data, incomplete patch
        ks = list(range(9, len(raw)))
        edges, at = [], 8       # inside and right after every number of the format
        for add, copy, seek in bpatch.controls(raw):
            for x in (bpatch.uvar(len(add)), add, bpatch.uvar(len(copy)), copy, bpatch.svar(seek)):
                edges += [at + 1, at + len(x) - 1, at + len(x)]
                at += len(x)
        ks = set(rng.sample(ks, min(30, len(ks)))) | set(rng.sample(edges, min(30, len(edges)))) | {8 + i for i in range(1, len(bpatch.uvar(len(next(bpatch.controls(raw))[0]))))}
        return [zs.pack(raw[:k], rng) for k in sorted(ks) if 8 < k < len(raw)]
    if kind == "zerofill":
        k = rng.randrange(1, len(patch))
        return [patch[:k] + bytes(len(patch) - k)]
    if kind == "headnoise":
        return [zs.compress(bpatch.MAGIC + rng.randbytes(rng.choice([30, 300, 3000]))) for _ in range(3)]
    if kind == "range":
        n = len(old) + rng.choice([1, 2, 1000])
        return [zs.compress(bpatch.MAGIC + bpatch.uvar(n) + bytes(n) + bpatch.uvar(0) + bpatch.svar(0)),
                zs.compress(raw + bpatch.uvar(n) + bytes(n) + bpatch.uvar(0) + bpatch.svar(0)),
                zs.compress(bpatch.MAGIC + bpatch.uvar(10 ** 6) + b"abc"),
                zs.compress(bpatch.MAGIC + bpatch.uvar(0) + bpatch.uvar(10 ** 6) + b"abc")]
    if kind == "seekneg":
        return [zs.compress(bpatch.MAGIC + bpatch.uvar(0) + bpatch.uvar(0) + bpatch.svar(-rng.randint(1, 1000)) +
                            bpatch.uvar(1) + b"\0" + bpatch.uvar(0) + bpatch.svar(0)),
                zs.compress(bpatch.MAGIC + bpatch.uvar(0) + bpatch.uvar(0) + bpatch.svar(len(old) + rng.randint(0, 1000)) +
                            bpatch.uvar(1) + b"\0" + bpatch.uvar(0) + bpatch.svar(0))]
    if kind == "other":
        x = rng.randbytes(len(old) + 500)
        return [zs.compress(bpatch.encode(x, x + b"1"))]
    raise AssertionError(kind)


def blockcuts(rng, old, new):
    """a right patch whose block ends are control ends, cut at those ends"""
    p = bpatch.encode(old, new, rng, 6)
    parts, pos = [p[:8]], 8
    q = 8
    while q < len(p):
        n, r = bpatch._read_uvar(p, q)
        r += n
        n, r = bpatch._read_uvar(p, r)
        r += n
        _, r = bpatch._read_uvar(p, r)
        parts.append(p[q:r])
        q = r
    data, ends = zs.compress_blocks(parts)
    assert bpatch.apply(zs.decompress(data), old) == new
    cuts = [e for e in ends[:-2]]
    return data, [data[:e] for e in rng.sample(cuts, min(8, len(cuts)))]


def run(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    k = rng.choice([1, 1, 2, 3, 4])
    vs = names(rng, k + 1)
    truth = {}
    c = content(rng, rng.choice([300, 2000, 6000]))
    for v in vs:
        truth[v] = c
        c = mutate(rng, c)
        while c in truth.values():
            c = mutate(rng, c)
    kind = d["kind"]
    j = rng.randrange(k)
    a, b = vs[j], vs[j + 1]
    pn = patch_name(a, b)
    target = vs[-1]
    tb = target + ".tar.zst"
    builds = {v: zs.pack(truth[v], rng) + zs.skippable(900000) for v in vs}
    patches = {(x, y): zs.pack(bpatch.encode(truth[x], truth[y], rng, rng.randint(1, 5)), rng) for x, y in zip(vs, vs[1:])}
    good = patches[a, b]
    raw = zs.decompress(good)
    shim = None
    s3hook = None
    variants = []
    if kind == "blockcut":
        good, variants = blockcuts(rng, truth[a], truth[b])
        patches[a, b] = good
    elif kind == "hang-free-flip":
        variants = None
    elif kind in S3KINDS and kind not in ("cut", "noise"):
        variants = None
    elif kind in ("vanish", "eio", "short", "eacces"):
        variants = None
    else:
        variants = damaged(rng, kind, good, raw, truth[a])
        # undetectable "damage": another well-formed patch
        def usable(v):
            r = zs.try_decompress(v)
            if r is None:
                return False
            try:
                bpatch.apply(r, truth[a])
                return True
            except bpatch.BadPatch:
                return False
        variants = [v for v in variants if v and not usable(v)]
        if not variants:
            return
    local_patch = rng.random() < .35 and variants is not None
    w.put_local(vs[0] + ".tar.zst", builds[vs[0]])
    os.symlink(os.path.join(w.local, vs[0] + ".tar.zst"), os.path.join(w.local, "current"))
    for v in vs:
        w.remote.put(v + ".tar.zst", builds[v])
    for p, x in patches.items():
        w.remote.put(patch_name(*p), x)
    if local_patch:
        w.put_local(pn, good)
    start = w.save()
    obtain = d["obtain"]
    if variants is None:
        variants = [None]
    for var in variants:
        w.restore(start)
        shim = {}
        if w.srv:
            w.srv.hook = None
        if var is not None:
            if local_patch:
                w.put_local(pn, var)
            else:
                w.remote.put(pn, var)
        elif d["remote"] == "dir":
            e = dict(vanish="1:2:s", eio="%d:5:s" % rng.randint(1, 3), eacces="1:13:s", short="2:5:s")[kind]
            shim = dict(fail=e, fclass="R", fmatch=w.remote.path + "/" + pn)
        hooks = []
        if w.srv and var is None:
            hooks.append((w.remote.key(pn), kind))
        if not obtain:
            if w.srv:
                hooks.append((w.remote.key(tb), rng.choice(["404", "500", "cutbody", "wrongetag", "drop"])))
            elif not shim:
                shim = dict(fail="1:%d:s" % rng.choice([5, 2, 13]), fclass="R", fmatch=w.remote.path + "/" + tb)
            else:   # one injector only: the build becomes unknown instead
                w.remote.delete(tb)
        if hooks:
            w.srv.hook = mkhook(hooks, w.srv, rng)
        before_cur = w.current()
        r = w.run("install", target, shim=shim)
        what = "upgrade with %s patch %d/%d (%s)" % (kind, j + 1, k, "cached" if local_patch else d["remote"])
        L = {n: x for n, x in w.lfiles().items() if is_build(n)}
        w.check_artefacts(L, truth, what)
        if obtain:
            if not r.ok:
                raise Violation("%s failed although the full build is available%s: %s" % (what, "" if var is None else " (patch %r...)" % var[:40], r))
            w.check_current(target, what=what)
            if tb not in L:
                raise Violation("%s: target build missing" % what)
        else:
            if r.ok:
                # legitimate only if the content was obtained some other way
                w.check_current(target, what=what)
                if tb not in L:
                    raise Violation("%s succeeded without the build: %s" % (what, r))
                obs.count("succeeded_without_full_build")
            elif w.current() != before_cur:
                raise Violation("%s failed but `current` changed from %r to %r" % (what, before_cur, w.current()))
        if w.stray():
            raise Violation("%s left %s" % (what, w.stray()))
        obs.count("damaged_upgrades_judged")
        obs.count("fell_back" if tb in w.remote.fetched(r) else "no_fallback")
        obs.key(kind, j, k, local_patch, d["remote"], obtain, len(var) if var is not None and kind.startswith("cut") else 0)
        if obtain and rng.random() < .2:
            if w.srv:
                w.srv.hook = None
            w.ok("install", target)
            o = rng.choice(vs)
            w.ok("install", o)
            w.check_current(o)
            w.check_artefacts({n: x for n, x in w.lfiles().items() if is_build(n)}, truth, "after another install")
    obs.sample = dict(damage=kind, position="%d/%d" % (j + 1, k), variants=len(variants), obtainable=obtain, remote=d["remote"])


def mkhook(rules, srv, rng):
    rules = dict(rules)
    def hook(rec):
        if rec["kind"] not in ("GET",) or rec["key"] not in rules:
            return None
        k = rules[rec["key"]]
        body = srv.objects.get(rec["key"], b"xxxxx")
        A = s3mod.Answer
        if k == "404":
            return s3mod.s3error(404, "NoSuchKey")
        if k == "403":
            return s3mod.s3error(403, "AccessDenied")
        if k == "500":
            return s3mod.s3error(500, "InternalError")
        if k == "drop":
            return A(drop=True)
        if k == "cutbody":
            return A(200, body, {"ETag": s3mod.etag(body)}, cut=max(0, len(body) // 2))
        if k == "shortlen":
            return A(200, body[:-1], {"ETag": s3mod.etag(body)})
        if k == "noetag":
            return A(200, body[: len(body) // 2])
        if k == "wrongetag":
            return A(200, body, {"ETag": s3mod.etag(body + b"1")})
        if k == "hang-free-flip":
            b = bytearray(body)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            return A(200, bytes(b), {"ETag": s3mod.etag(body)})
        raise AssertionError(k)
    return hook
