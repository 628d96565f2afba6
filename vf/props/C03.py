from world import *

LEVEL = "exploration"
RULE = ("Each case creates a patch between two builds of generated contents (through create-patch, add or add-package with a base version; "
        "builds local, remote or both; directory or S3), decodes it with the independent decoder against the old content and compares with "
        "the new content. Distinct by content relation, size classes, command and placement.")
ASSUMPTIONS = ["both builds decompress to at least one byte", "versions are published once, so an existing patch of a pair is a right one"]


BIG = ["chunk", "chunk-eq", "part4", "part4"]   # beyond the 100 MB limits of the diff


def cases(tier, rng):
    n = 1300 if tier == "quick" else 9000
    rel = ["equal", "edit", "edit", "disjoint", "prefix", "suffix", "extend", "repeat", "shuffle", "tiny", "zeros", "sub", "grow", "tar"]
    cs = [dict(rel=rel[i % len(rel)], cmd=["create", "create", "add", "pkg"][(i // len(rel)) % 4], kind="s3" if i % 9 == 8 else "dir") for i in range(n)]
    cs += [dict(rel="self", cmd=c, kind="dir") for c in ("create", "add", "pkg")] * 2
    cs += [dict(rel="existing", cmd=c, kind=k, at=at) for c in ("create", "add") for k in ("dir", "s3") for at in "lr"] * 2
    cs += [dict(rel="large", cmd="create", kind="dir") for _ in range(2 if tier == "quick" else 30)]
    cs += [dict(rel=b, cmd="create", kind="dir") for b in BIG]
    return cs


def pair(rng, rel):
    if rel == "tiny":
        return rng.randbytes(rng.randint(1, 4)), rng.randbytes(rng.randint(1, 4))
    if rel == "zeros":
        return bytes(rng.randint(1, 5000)), bytes(rng.randint(1, 5000))
    if rel == "large":
        a = rng.randbytes(400000)
        b = bytearray(a)
        for _ in range(30):
            i = rng.randrange(len(b))
            b[i:i + rng.randrange(2000)] = rng.randbytes(rng.randrange(2000))
        return a, bytes(b)
    if rel == "chunk":
        a = rng.randbytes(3000)
        return a, (a[:2999] * 36000)[:104_000_000] + rng.randbytes(100) + a
    if rel == "chunk-eq":
        a = rng.randbytes(5000)
        return a, (a * 20001)[:100_000_000]
    if rel == "part4":
        a = content(rng, rng.choice([3, 50, 30000]))
        return a, mutate(rng, a, 12)
    a = content(rng)
    if rel == "equal":
        return a, a
    if rel == "edit":
        return a, mutate(rng, a)
    if rel == "disjoint":
        return some_bytes(rng, rng.randint(1, 3000), range(0, 100)), some_bytes(rng, rng.randint(1, 3000), range(128, 256))
    if rel == "prefix":
        return a, a[:rng.randint(1, len(a))]
    if rel == "suffix":
        return a, a[rng.randrange(len(a)):]
    if rel == "extend":
        return a, a + content(rng)
    if rel == "repeat":
        return a, a * rng.randint(2, 5)
    if rel == "sub":
        i = rng.randrange(len(a))
        return a, a[i:rng.randint(i + 1, len(a))]
    if rel == "grow":
        return a[:rng.randint(1, 20)], a
    if rel == "tar":
        import io, tarfile
        def mk(seed):
            r = random.Random(seed)
            f = io.BytesIO()
            with tarfile.open(fileobj=f, mode="w") as t:
                for i in range(r.randint(1, 6)):
                    b = r.randbytes(r.choice([0, 10, 600, 3000]))
                    ti = tarfile.TarInfo("f%d" % i)
                    ti.size = len(b)
                    t.addfile(ti, io.BytesIO(b))
            return f.getvalue()
        x = rng.randrange(4)
        return mk(x), mutate(rng, mk(x)) if rng.random() < .5 else mk(x + 1)
    blocks = [a[i:i + 97] for i in range(0, len(a), 97)]
    rng.shuffle(blocks)
    return a, b"".join(blocks)


def run(d, w, obs):
    rng = w.rng
    w.use(d["kind"])
    w.level = rng.choice(["1", "1", "1", None, "5", "19", "0"])
    va, vb = names(rng, 2)
    rel, alias = d["rel"], None
    if rel == "self":
        return selfpatch(d, w, obs, va)
    a, b = pair(rng, "edit" if rel == "existing" else rel)
    za = zs.pack(a, rng, rng.choice([1, 3, 12]))
    if d["cmd"] == "pkg":
        w.level = "1"
        f = os.path.join(w.src, "f")
        write(f, b)
        args = ["add-package", vb, f, "--calc-patch-from", va]
        if rng.random() < .3:
            args.append("--upload")
        pa = "local" if rng.random() < .6 else None
    elif d["cmd"] == "add":
        f = os.path.join(w.src, vb + ".tar.zst")
        write(f, zs.pack(b, rng, rng.choice([1, 3, 12])))
        if rel != "existing" and rng.random() < .25:     # through a link, which may or may not give the build its name
            alias = rng.choice([x for x in ("alias", "9.9", "latest") if x not in (va, vb)])
            os.mkdir(os.path.join(w.src, "links"))
            os.symlink(rng.choice([f, "../" + vb + ".tar.zst"]), os.path.join(w.src, "links", alias + ".tar.zst"))
            f = os.path.join(w.src, "links", alias + ".tar.zst")
        args = ["add", f, "--calc-patch-from", va]
        if rng.random() < .3:
            args.append("--upload")
    else:
        args = ["create-patch", va, vb]
        zb = zs.pack(b, rng, rng.choice([1, 3, 12]))
        if rel == "part4":      # a large file of small content
            zb += zs.skippable(100_000_100)
    pa = rng.choice(["local", "remote", "both"])
    pb = rng.choice(["local", "remote", "both"])
    if pa != "remote":
        w.put_local(va + ".tar.zst", za)
    if pa != "local":
        w.remote.put(va + ".tar.zst", za)
    if d["cmd"] == "create":
        if pb != "remote":
            w.put_local(vb + ".tar.zst", zb)
        if pb != "local":
            w.remote.put(vb + ".tar.zst", zb)
    pn = patch_name(va, vb)
    if rel == "existing":
        p = zs.compress(bpatch.encode(a, b))
        if d["at"] == "l":
            w.put_local(pn, p)
        else:
            w.remote.put(pn, p)
    if d["cmd"] != "pkg" and rng.random() < .3:   # other builds and the reverse patch around
        w.put_local(patch_name(vb, va), zs.compress(bpatch.encode(b, a)))
    before = w.lfiles()
    rbefore = w.remote.files()
    r = w.ok(*args, timeout=800)
    after = w.lfiles()
    truth = {va: a, vb: b}
    if alias and alias + ".tar.zst" in after:
        vb, pn = alias, patch_name(va, alias)
    if pn not in after:
        raise Violation("no patch %r after %s (store: %s)" % (pn, r, sorted(after)))
    if d["cmd"] == "pkg":
        b = zs.try_decompress(after.get(vb + ".tar.zst", b""))
        if b is None:
            raise Violation("no complete build %r after %s" % (vb, r))
    truth[vb] = b
    w.check_artefacts(after, truth, "local store")
    w.check_artefacts(w.remote.files(), truth, "remote")
    for n, x in before.items():
        if n != pn and after.get(n) != x:
            raise Violation("creating a patch changed %r" % n)
    new = set(after) - set(before) - {pn, va + ".tar.zst", vb + ".tar.zst"}
    if new:
        raise Violation("creating a patch left %s" % sorted(new))
    for n, x in rbefore.items():
        if w.remote.get(n) != x and not (n == pn and d["cmd"] == "add"):
            raise Violation("creating a patch changed remote %r" % n)
    obs.count("patches_decoded")
    obs.count("new_bytes_compared", len(b))
    ctl = list(bpatch.controls(zs.decompress(after[pn])))
    obs.count("patch_controls", len(ctl))
    obs.key(rel, d["cmd"], d["kind"], pa, pb, len(a).bit_length(), len(b).bit_length(), min(len(ctl), 6))
    obs.sample = dict(relation=rel, command=args[0], old=len(a), new=len(b), patch=len(after[pn]), controls=len(ctl), placement=[pa, pb])


def selfpatch(d, w, obs, v):
    a = content(w.rng)
    if d["cmd"] == "create":
        w.put_local(v + ".tar.zst", zs.pack(a, w.rng))
        args = ["create-patch", v, v]
    elif d["cmd"] == "add":
        f = os.path.join(w.src, v + ".tar.zst")
        write(f, zs.pack(a, w.rng))
        args = ["add", f, "--calc-patch-from", v]
    else:
        f = os.path.join(w.src, "f")
        write(f, a)
        args = ["add-package", v, f, "--calc-patch-from", v]
    if w.rng.random() < .5:
        w.put_local(v + ".tar.zst", zs.pack(a, w.rng))
    r = w.run(*args)
    ps = [n for n in w.lfiles() if is_patch(n)]
    if r.ok or ps:
        raise Violation("a patch from a version to itself was not refused: %s, patches %s" % (r, ps))
    obs.count("self_patches_refused")
    obs.key("self", d["cmd"])
    obs.sample = dict(self_patch=args[0])
