import base64, hashlib, threading
import s3 as s3mod
from world import *

LEVEL = "exploration"
RULE = ("Each case runs a command (install direct, over patches or repaired by the direct build, create-patch, auto-patch, add with a patch, sync, add with "
        "upload) against the fake S3 server, which damages the answer for one or for all objects: single bits, bytes missing, added, swapped "
        "or zeroed anywhere, another object's body, forged or absent checksums, early end, dropped connection, HTTP errors, error documents; or rejects, drops or damages "
        "uploads. Judged are exit status, local store, `current`, what the server has stored, and the checksum of every single upload against the "
        "bytes received. Distinct by command, kind of damage, object and position.")
ASSUMPTIONS = ["the checksum of an object uploaded in several parts (it contains a dash) is not an MD5 checksum and is not checked",
               "the server states checksums as S3 does, as quoted lower-case hexadecimal digits"]
GETS = ["install_direct", "install_fresh", "install_chain", "create", "create_patch_known", "auto", "add_calc"]
DMG = ["flip", "flip", "flip", "flip1", "missing_end", "missing_start", "missing_mid", "extra_end", "extra_start", "extra_mid", "swap", "zero", "other", "empty", "twice", "reverse",
       "etag_wrong", "etag_near", "etag_short", "etag_long", "etag_empty", "etag_none", "etag_other", "etag_case", "etag_last", "etag_first", "etag_weak", "etag_bare", "early", "early_big", "early_zero", "drop", "error", "error_doc", "chunk_early", "recompressed"]
PUTS = ["sync", "sync_many", "upload", "upload_calc", "pkg_upload"]
PDMG = ["none", "error", "error", "baddigest", "enroute", "drop", "drop_served", "redirect", "garbage", "slow_error", "informational"]


def cases(tier, rng):
    n = 5 if tier == "quick" else 60
    cs = []
    for r in range(n):
        for c in GETS:
            for x in DMG:
                cs.append(dict(mode="get", cmd=c, dmg=x, r=r, all=r % 3 == 2))
        for c in PUTS:
            for x in PDMG:
                for k in range(2):
                    cs.append(dict(mode="put", cmd=c, dmg=x, r=r, all=k))
    for n in [8, 1000, 60000, 1 << 20, (2 << 20) + 1, (4 << 20) + 1, (5 << 20) + 1, (8 << 20) + 1, (16 << 20) + 1] + ([] if tier == "quick" else [(33 << 20), (64 << 20) + 1, (100 << 20) + 5, (260 << 20)]):
        for x in ("get_flip", "get_end", "get_extra", "put_sync", "put_add"):
            cs.append(dict(mode="size", dmg=x, size=n))
    if tier == "quick":
        cs[:0] = [dict(mode="size", dmg=x, size=n) for n, x in (((26 << 20) + 1, "get_flip"), ((26 << 20) + 3, "put_sync"), ((67 << 20) + 1, "get_flip"))]
    for r in range(1 if tier == "quick" else 12):
        cs.append(dict(mode="positions", r=r, dmg="flip"))
        for x in ("list_error", "list_garbage", "list_drop", "list_early"):
            for c in GETS + PUTS:
                cs.append(dict(mode="list", cmd=c, dmg=x, r=r))
    return cs


def damage(rng, kind, b, other):
    """-> (body, how the answer is given)"""
    a = bytearray(b)
    n = len(a)
    i = rng.randrange(n)
    j = rng.randint(i + 1, min(n, i + 1 + rng.choice([1, 2, 16, 5000])))
    if kind == "flip":
        a[i] ^= 1 << rng.randrange(8)
    elif kind == "flip1":
        for k in range(rng.randint(2, 5)):
            a[rng.randrange(n)] ^= rng.randint(1, 255)
        if bytes(a) == b:
            a[0] ^= 1
    elif kind == "missing_end":
        del a[max(0, n - rng.choice([1, 1, 2, 4, n // 2 or 1])):]
    elif kind == "missing_start":
        del a[:rng.choice([1, 4, n // 2 or 1])]
    elif kind == "missing_mid":
        del a[i:j]
    elif kind == "extra_end":
        a += rng.choice([b"\x00", b"\n", bytes(16), b, zs.skippable(5)])
    elif kind == "extra_start":
        a[:0] = rng.choice([b"\x00", b"\n", zs.skippable(9)])
    elif kind == "extra_mid":
        a[i:i] = a[i:j]
    elif kind == "swap":
        h = max(1, n // 2)
        a = a[h:] + a[:h]
    elif kind == "zero":
        a[i:j] = bytes(j - i)
    elif kind == "other":
        a = bytearray(other)
    elif kind == "empty":
        a = bytearray()
    elif kind == "twice":
        a = a + a
    elif kind == "reverse":
        a.reverse()
    elif kind == "recompressed":   # the same content in other bytes
        a = bytearray(zs.compress(zs.decompress(b), 19) + zs.skippable(1))
    return bytes(a)


def forged(rng, kind, b, other, stated):
    """the server's damaged answer; stated is the object's real ETag"""
    h = stated.strip('"')
    e = None
    if kind == "etag_wrong":
        e = '"%032x"' % rng.randrange(16 ** 32)
    elif kind == "etag_near":
        i = rng.randrange(32)
        e = '"%s"' % (h[:i] + ("0" if h[i] != "0" else "1") + h[i + 1:])
    elif kind == "etag_short":
        e = '"%s"' % h[:rng.choice([0, 1, 16, 30, 31])]
    elif kind == "etag_long":
        e = '"%s"' % (h + rng.choice(["0", "00", h]))
    elif kind == "etag_empty":
        e = '""'
    elif kind == "etag_other":
        e = s3mod.etag(other)
    elif kind == "etag_case":     # the checksum of other bytes
        e = s3mod.etag(b.swapcase() if b.swapcase() != b else b + b"x")
    elif kind in ("etag_last", "etag_first"):      # differs in a single digit only
        i = 31 if kind == "etag_last" else 0
        e = '"%s"' % (h[:i] + rng.choice([c for c in "0123456789abcdef" if c != h[i]]) + h[i + 1:])
    elif kind in ("etag_weak", "etag_bare"):       # damaged content, unusual notation of the right checksum
        x = damage(rng, "flip", b, other)
        return s3mod.Answer(200, x, {"ETag": ("W/" + stated) if kind == "etag_weak" else h})
    elif kind == "etag_none":
        return s3mod.Answer(200, b, {})
    if e is not None:
        return s3mod.Answer(200, b, {"ETag": e})
    if kind in ("early", "early_big", "early_zero"):
        cut = dict(early=rng.randrange(len(b)), early_big=len(b) - 1, early_zero=0)[kind]
        return s3mod.Answer(200, b, {"ETag": stated}, cut=cut)
    if kind == "chunk_early":
        return s3mod.Answer(200, chunked(b, rng, False), {"ETag": stated, "Transfer-Encoding": "chunked", "Content-Length": None}, cut=10 ** 9)
    if kind == "drop":
        return s3mod.Answer(drop=True)
    if kind == "error":
        return rng.choice([s3mod.s3error(*x) for x in ((404, "NoSuchKey"), (403, "AccessDenied"), (500, "InternalError"), (503, "SlowDown"), (400, "X"), (416, "X"))] +
                          [s3mod.Answer(500, b, {"ETag": stated}), s3mod.Answer(404, b, {"ETag": stated}), s3mod.Answer(503, b"", {})])
    if kind == "error_doc":
        a = s3mod.s3error(200, "InternalError")
        a.headers["ETag"] = stated
        return a
    x = damage(rng, kind, b, other)
    if x == b:
        x = b + b"\0"
    return s3mod.Answer(200, x, {"ETag": stated})


def chunked(b, rng, end=True):
    k = rng.randint(1, max(1, len(b) - 1))
    return b"%x\r\n%s\r\n" % (k, b[:k]) + (b"0\r\n\r\n" if end else b"")


def family(rng, k, size):
    out, c = [], content(rng, size)
    while len(out) < k:
        c = mutate(rng, c)
        if c not in out:
            out.append(c)
    return out


def git_repo(w, tags):
    import ops
    repo = os.path.join(w.src, "repo")
    os.mkdir(repo)
    ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"], *[["tag", t] for t in tags])
    return repo


def setup(w, rng, cmd, big=False):
    """-> args, truth, the objects the command wants, whether another route exists for an object"""
    w.use_s3()
    vs = ["1.0.7", "1.0.8", "1.0.9"] if cmd == "auto" else rng.sample(["a", "b", "m-1", "1.10", "zz 3", "é"], 3)
    cs = family(rng, 3, rng.choice([30, 2000, 60000]) if not big else 200000)
    truth = dict(zip(vs, cs))
    a, b, c = vs
    B = {v: zs.compress(truth[v]) for v in vs}
    bn = lambda v: v + ".tar.zst"
    route = {}
    for v in vs:
        w.remote.put(bn(v), B[v] + (zs.skippable(700000 if big else 90000) if cmd == "install_chain" else b""))
    if cmd == "install_direct":
        w.put_local(bn(a), B[a])
        os.symlink(os.path.join(w.local, bn(a)), os.path.join(w.local, "current"))
        return ["install", b], truth, [bn(b)], route
    if cmd == "install_fresh":
        return ["install", b], truth, [bn(b)], route
    if cmd == "install_chain":
        w.put_local(bn(a), B[a])
        os.symlink(os.path.join(w.local, bn(a)), os.path.join(w.local, "current"))
        for x, y in ((a, b), (b, c)):
            w.remote.put(patch_name(x, y), zs.compress(bpatch.encode(truth[x], truth[y], rng)))
            route[patch_name(x, y)] = True
        return ["install", c], truth, [patch_name(a, b), patch_name(b, c)], route
    if cmd == "create":
        return ["create-patch", a, b], truth, [bn(a), bn(b)], route
    if cmd == "create_patch_known":
        # a known patch that cannot be fetched may be made anew
        p = patch_name(a, b)
        w.remote.put(p, zs.compress(bpatch.encode(truth[a], truth[b], rng)))
        route[p] = True
        return ["create-patch", a, b], truth, [p], route
    if cmd == "auto":
        w.remote.delete(bn(a))
        del truth[a]
        return ["auto-patch", "--repo-root", git_repo(w, vs), c], truth, [bn(b), bn(c)], route
    f = os.path.join(w.src, bn(b))
    write(f, B[b])
    w.remote.delete(bn(b))
    return ["add", f, "--calc-patch-from", a], truth, [bn(a)], route


def current_ok(w, truth, before, what, ok, target):
    cur = w.current()
    if not ok and cur != before:
        raise Violation("%s: failed, but `current` changed to %r" % (what, cur))
    if ok and target:
        w.check_current(target, what=what)


def get_case(d, w, obs, victim=None, ans=None):
    rng = w.rng
    args, truth, want, route = setup(w, rng, d["cmd"], big=d["r"] % 3 == 1)
    victim = rng.choice(want)
    objs = dict(w.remote.files())
    others = [x for n, x in objs.items() if n != victim]
    fixed = {}
    hits = []

    def hook(rec):
        if rec["kind"] != "GET":
            return None
        n = rec["key"].rsplit("/", 1)[-1]
        if n != victim and not d["all"]:
            return None
        if n not in objs:
            return None
        hits.append(n)
        r2 = random.Random("%s %s" % (d["seed"], n))
        oth = [x for m, x in objs.items() if m != n and x != objs[n]]
        return forged(r2, d["dmg"], objs[n], r2.choice(oth), s3mod.etag(objs[n]))
    w.srv.hook = hook
    l0, cur0 = w.lfiles(), w.current()
    r = w.run(*args, timeout=60)
    what = "%s with %s damaged (%s)" % (d["cmd"], "everything" if d["all"] else repr(victim), d["dmg"])
    if not hits:
        raise Inconclusive("%s: nothing was fetched: %s" % (what, r))
    judge_get(w, obs, r, what, d, truth, l0, cur0, objs, hits, route, args)
    # once the server behaves, everything works
    w.srv.hook = None
    r = w.run(*args)
    if not r.ok:
        raise Violation("%s: even afterwards the command fails: %s" % (what, r))
    check_store(w, truth, l0, objs, what + ", then again without damage")
    obs.key("get", d["cmd"], d["dmg"], d["all"], victim, d["r"])
    obs.sample = dict(cmd=d["cmd"], damage=d["dmg"], victim=victim, all=d["all"])


def check_store(w, truth, l0, objs, what):
    for n, b in w.lfiles().items():
        if n in l0 and l0[n] == b:
            continue
        if n in objs and b == objs[n]:
            continue
        if not is_artefact(n):
            raise Violation("%s: left %r" % (what, n))
        if n in objs and is_build(n) and zs.try_decompress(b) is not None and zs.try_decompress(b) == truth.get(n[:-8]):
            continue    # made from patches
        w.check_artefacts({n: b}, truth, what)


def judge_get(w, obs, r, what, d, truth, l0, cur0, objs, hits, route, args):
    check_store(w, truth, l0, objs, what)
    target = args[1] if args[0] == "install" else None
    if r.rc < 0:
        raise Violation("%s: killed by a signal: %s" % (what, r))
    alt = all(route.get(n) for n in set(hits))
    if d["all"] and args[0] == "install":
        alt = False
    if r.ok and not alt:
        raise Violation("%s: the command succeeded: %s" % (what, r))
    if not r.ok and args[0] == "install" and not d["all"] and alt:
        raise Violation("%s: another route exists, but the command failed: %s" % (what, r))
    current_ok(w, truth, cur0, what, r.ok, target)
    if not r.ok and target and target + ".tar.zst" in w.lfiles() and target + ".tar.zst" not in l0:
        raise Violation("%s: failed, but the build is there" % what)
    obs.count("damaged_downloads_judged", len(hits))
    obs.count("commands_that_failed" if not r.ok else "commands_by_another_route")


def positions(d, w, obs):
    """every byte of a small object damaged in turn"""
    rng = w.rng
    w.use_s3()
    c = content(rng, 24)
    b = zs.compress(c)
    w.remote.put("v.tar.zst", b)
    w.remote.put("u.tar.zst", zs.compress(c[::-1] + b"q"))
    w.put_local("u.tar.zst", w.remote.get("u.tar.zst"))
    w.remote.put("u-v.patch.zst", b"")
    for i in range(len(b) + 1):
        for how in ("flip", "del", "ins"):
            a = bytearray(b)
            if how == "ins":
                a.insert(i, rng.randrange(256))
            elif i == len(b):
                continue
            elif how == "flip":
                a[i] ^= 1 << rng.randrange(8)
            else:
                del a[i]
            a = bytes(a)
            if a == b:
                continue
            w.srv.hook = lambda rec: s3mod.Answer(200, a, {"ETag": s3mod.etag(b)}) if rec["kind"] == "GET" else None
            r = w.run("install", "v")
            what = "install with byte %d of %d damaged (%s)" % (i, len(b), how)
            if r.ok or w.current() is not None or "v.tar.zst" in w.lfiles():
                raise Violation("%s: was accepted: %s" % (what, r))
            obs.count("damaged_downloads_judged")
            obs.key("pos", i, how, d["r"])
    w.srv.hook = None
    w.ok("install", "v")


def put_case(d, w, obs):
    rng = w.rng
    w.use_s3()
    cmd = d["cmd"]
    k = dict(sync_many=9, sync=2).get(cmd, 1)
    vs = ["v%d" % i for i in range(k)]
    cs = family(rng, k + 1, rng.choice([5, 3000, 70000, 70000]))
    truth = dict(zip(vs, cs))
    for v in vs:
        w.put_local(v + ".tar.zst", zs.compress(truth[v]))
    args = ["sync"]
    if cmd == "sync":
        w.put_local(patch_name(*vs), zs.compress(bpatch.encode(truth["v0"], truth["v1"], rng)))
    elif cmd.startswith("upload"):
        f = os.path.join(w.src, "new-1.tar.zst")
        write(f, zs.compress(cs[-1]))
        args = ["add", f, "--upload"] + (["--calc-patch-from", "v0"] if cmd == "upload_calc" else [])
    elif cmd == "pkg_upload":
        f = os.path.join(w.src, "t")
        os.mkdir(f)
        write(os.path.join(f, "x"), cs[-1])
        args = ["add-package", "new-1", f, "--upload"]
    mu = threading.Lock()
    hits, seen = [], [0]
    which = rng.randint(1, 2)
    kind = d["dmg"]
    err = rng.choice([(500, "InternalError"), (503, "SlowDown"), (403, "AccessDenied"), (404, "NoSuchBucket"), (400, "EntityTooLarge"), (412, "X"), (507, "X")])

    victims = set()

    def hook(rec):
        if rec["kind"] != "PUT":
            return None
        with mu:
            seen[0] += 1
            if not (d["all"] or rec["key"] in victims or (seen[0] == which and not victims)):
                return None
            victims.add(rec["key"])     # persistently, retries included
        if kind == "none":
            return None
        hits.append(rec["key"])
        if kind == "error":
            return s3mod.s3error(*err)
        if kind == "baddigest":
            return s3mod.s3error(400, "BadDigest")
        if kind == "enroute":     # the server receives something else and notices by the checksum it was told
            body = damage(rng, rng.choice(["flip", "missing_end", "extra_end", "zero", "swap", "empty"]), rec["body"], b"?")
            if body == rec["body"]:
                body += b"\0"
            if rec["md5"] is not None and safe_b64(rec["md5"]) != hashlib.md5(body).digest():
                return s3mod.s3error(400, "BadDigest")
            w.srv.objects[rec["key"]] = body
            return s3mod.Answer(200, b"", {"ETag": s3mod.etag(body)})
        if kind == "drop":
            return s3mod.Answer(drop=True)
        if kind == "drop_served":
            w.srv.serve(rec)
            return s3mod.Answer(drop=True)
        if kind == "redirect":
            a = s3mod.s3error(rng.choice([301, 302, 307]), "PermanentRedirect")
            a.headers["Location"] = "https://localhost/bkt/elsewhere"
            return a
        if kind == "garbage":
            return s3mod.Answer(rng.choice([500, 400, 503]), rng.randbytes(rng.randint(0, 300)), {"Content-Type": "text/html"})
        if kind == "slow_error":
            time.sleep(.05)
            return s3mod.s3error(500, "InternalError")
        if kind == "informational":
            return s3mod.Answer(rng.choice([304, 400]), b"", {})
        raise AssertionError(kind)
    w.srv.hook = hook
    l0 = w.lfiles()
    r = w.run(*args, timeout=60)
    what = "%s with uploads damaged (%s%s)" % (cmd, kind, ", all" if d["all"] else "")
    if not hits and not (kind == "none" or (not d["all"] and seen[0] < which)):
        raise Inconclusive("%s: nothing happened: %s" % (what, r))
    puts = [q for q in r.requests if q["kind"] == "PUT"]
    for q in puts:
        n = q["key"].rsplit("/", 1)[-1]
        if q["md5"] is None:
            raise Violation("%s: upload of %r has no checksum" % (what, n))
        if safe_b64(q["md5"]) != hashlib.md5(q["body"]).digest():
            raise Violation("%s: the checksum %r of the upload of %r is not the one of its %d bytes" % (what, q["md5"], n, len(q["body"])))
        if q["body"] != w.lfiles().get(n):
            raise Violation("%s: upload of %r does not consist of the file's bytes" % (what, n))
        obs.count("uploads_judged")
    if hits and r.ok:
        raise Violation("%s: the command succeeded: %s" % (what, r))
    if not hits and not r.ok:
        raise Violation("%s: failed without a reason: %s" % (what, r))
    for n, b in l0.items():
        if w.lfiles().get(n) != b:
            raise Violation("%s: local %r changed" % (what, n))
    if kind not in ("none",):
        w.srv.hook = None
        w.ok("sync")
        for n, b in w.lfiles().items():
            if is_artefact(n) and w.remote.get(n) != b:
                raise Violation("%s: a later sync did not upload %r" % (what, n))
    obs.key("put", cmd, kind, d["all"], err if kind == "error" else 0, len(puts), d["r"])
    obs.count("rejected_uploads", len(hits))
    obs.sample = dict(cmd=cmd, damage=kind, uploads=len(puts), rejected=len(hits))


def safe_b64(s):
    try:
        return base64.b64decode(s, validate=True)
    except Exception:
        return None


def list_case(d, w, obs):
    rng = w.rng
    if d["cmd"] in GETS:
        args, truth, _, _ = setup(w, rng, d["cmd"])
    else:
        w.use_s3()
        w.put_local("v0.tar.zst", zs.compress(b"0"))
        f = os.path.join(w.src, "new-1.tar.zst")
        write(f, zs.compress(b"new"))
        args = dict(upload=["add", f, "--upload"], upload_calc=["add", f, "--upload", "--calc-patch-from", "v0"], pkg_upload=["add-package", "n", f, "--upload"]).get(d["cmd"], ["sync"])
    kind = d["dmg"]

    def hook(rec):
        if rec["kind"] != "LIST":
            return None
        a = w.srv.serve(rec)
        if kind == "list_error":
            return s3mod.s3error(*rng.choice([(500, "InternalError"), (403, "AccessDenied"), (404, "NoSuchBucket"), (503, "SlowDown")]))
        if kind == "list_garbage":
            return s3mod.Answer(rng.choice([500, 502, 404]), b"<html>Bad Gateway</html>", {"Content-Type": "text/html"})
        if kind == "list_drop":
            return s3mod.Answer(drop=True)
        a.cut = rng.randrange(len(a.body))
        return a
    w.srv.hook = hook
    before, objs = w.tree(), dict(w.srv.objects)
    r = w.run(*args, timeout=60)
    what = "%s with a failing listing (%s)" % (d["cmd"], kind)
    if r.ok:
        raise Violation("%s: succeeded: %s" % (what, r))
    ds = diff(before, w.tree())
    if ds or objs != w.srv.objects:
        raise Violation("%s: failed, but changed %s" % (what, ds[:3] or "the remote"))
    obs.count("failed_listings_judged")
    obs.key("list", d["cmd"], kind, d["r"])


def size_case(d, w, obs):
    """the guarantee does not depend on how large the object is"""
    rng = w.rng
    w.use_s3()
    c = content(rng)
    b = zs.compress(c) + zs.skippable(d["size"])
    x = d["dmg"]
    v = names(rng, 1)[0]
    n = v + ".tar.zst"
    hits = []
    if x.startswith("get"):
        w.remote.put(n, b)
        a = bytearray(b)
        if x == "get_flip":
            a[rng.choice([rng.randrange(len(a)), len(a) - 1, len(a) - 1 - rng.randrange(9)])] ^= 1 << rng.randrange(8)
        elif x == "get_end":
            del a[len(a) - rng.choice([1, d["size"]]):]
        else:
            a += zs.skippable(rng.choice([8, 4096]))

        def hook(rec):
            if rec["kind"] != "GET":
                return None
            hits.append(rec["key"])
            return s3mod.Answer(200, bytes(a), {"ETag": s3mod.etag(b)})
        w.srv.hook = hook
        r = w.run("install", v, timeout=200)
        what = "install of an object of %d bytes, damaged on its way (%s)" % (len(b), x)
        if not hits:
            raise Inconclusive("%s: not fetched: %s" % (what, r))
        if r.ok or os.listdir(w.local):
            raise Violation("%s: accepted: %s, local store %s" % (what, r, os.listdir(w.local)))
    else:
        if x == "put_sync":
            w.put_local(n, b)
            args = ["sync"]
        else:
            f = os.path.join(w.src, n)
            write(f, b)
            args = ["add", f, "--upload"]

        def hook(rec):
            if rec["kind"] != "PUT":
                return None
            hits.append(rec["key"])
            a = bytearray(rec["body"])
            a[rng.randrange(len(a))] ^= 1
            if rec["md5"] is not None and safe_b64(rec["md5"]) != hashlib.md5(a).digest():
                return s3mod.s3error(400, "BadDigest")
            w.srv.objects[rec["key"]] = bytes(a)
            return s3mod.Answer(200, b"", {"ETag": s3mod.etag(bytes(a))})
        w.srv.hook = hook
        r = w.run(*args, timeout=200)
        what = "%s of a file of %d bytes, damaged on its way" % (args[0], len(b))
        if not hits:
            raise Inconclusive("%s: not uploaded: %s" % (what, r))
        if r.ok or w.remote.get(n) is not None:
            raise Violation("%s: not noticed by the server (no or a wrong checksum): %s" % (what, r))
        w.srv.hook = None
        w.ok("sync")
        if w.remote.get(n) != b:
            raise Violation("%s: the next sync did not upload it" % what)
    obs.count("sizes_judged")
    obs.key("size", x, d["size"])


def run(d, w, obs):
    dict(size=size_case, get=get_case, put=put_case, positions=positions, list=list_case)[d["mode"]](d, w, obs)
