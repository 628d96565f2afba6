import threading
import s3 as s3mod
from world import *

LEVEL = "exploration"
RULE = ("Each case fills a local and a directory or S3 remote store with builds and patches that are local only, in both (same or different bytes) or "
        "remote only, plus files that do not belong there, and runs sync or add --upload, undisturbed or with one or more uploads failing (S3 errors, "
        "dropped connections, failing writes). The remote afterwards is compared with the exact expected content, and the uploads "
        "that took place (PUT requests or written files) with the exact expected set; then sync runs again. Distinct by remote kind, "
        "command, failure, and numbers of missing/present/different/foreign files.")
ASSUMPTIONS = ["a patch file present on the remote while a build of it is in neither store is not claimed to be kept by an add that creates this very patch"]
FAIL = [None, None, None, "first", "some", "all", "last"]


def cases(tier, rng):
    n = 1500 if tier == "quick" else 8000
    return [dict(remote="s3" if i % 3 == 2 else "dir", cmd=["sync", "sync", "upload", "upload_calc", "pkg_upload", "upload_replace"][i % 6],
                 fail=FAIL[i // 6 % len(FAIL)], many=i % 40 == 7, i=i) for i in range(n)] + [
        dict(remote=k, cmd=c, fail=None, many=m, i=0) for k, c, m in [("dir", "sync", 1100), ("s3", "upload", 230), ("dir", "upload", 300)] * (1 if tier == "quick" else 5)]


def fill(w, rng, many):
    pool = list(NAMES)
    if many:
        pool += ["n%d" % i for i in range(60 if many is True else 2 * many)]
    rng.shuffle(pool)
    vs = pool[:rng.randint(1, 6) if not many else rng.randint(20, 70) if many is True else many]
    truth, L, R = {}, {}, {}
    c = content(rng, 400)
    for v in vs:
        c = mutate(rng, c)
        while c in truth.values():
            c = mutate(rng, c)
        truth[v] = c
    style = rng.choice(["mixed", "mixed", "localonly", "remoteonly", "synced"]) if many in (False, True) else rng.choice(["mixed", "localonly"])
    for v in vs:
        d = zs.pack(truth[v], rng)
        n = v + ".tar.zst"
        x = rng.random()
        if style == "localonly" or style == "mixed" and x < .4:
            L[n] = d
        elif style == "remoteonly" or style == "mixed" and x < .6:
            R[n] = d
        else:
            L[n] = d
            y = rng.random()
            # the same, other bytes of the same size, another size
            R[n] = d if y < .5 or style == "synced" else rng.choice([bytes(255 - b for b in d), d + zs.skippable(rng.randint(8, 50)), d + zs.skippable(20 * len(d)),
                                                                     d[:max(1, len(d) // 2)], d[:1], rng.randbytes(3)])
            if R[n] != d and rng.random() < .3:          # of far different sizes
                L[n] = d + zs.skippable(30 * len(d))
    for a in vs:
        for b in vs:
            if a != b and rng.random() < (.3 if not many else .01 if many is True else 2 / many ** 2):
                d = zs.pack(bpatch.encode(truth[a], truth[b]), rng)
                n = patch_name(a, b)
                x = rng.random()
                if x < .5:
                    L[n] = d
                elif x < .65:
                    R[n] = d
                else:
                    L[n] = d
                    R[n] = rng.choice([d, d, d + zs.skippable(20), d + zs.skippable(20 * len(d)), d[:1]])
    return vs, truth, L, R


def junk(w, rng, L, vs, S):
    """files without meaning in the local store"""
    J = {}
    for _ in range(rng.randint(0, 4)):
        k = rng.choice(["._artefacta-temp-16000000001.tar.zst.part", "notes.txt", "x.zst", "empty.tar.zst", "e-f.patch.zst", "1.tar", "2.tar.gz", ".hidden", "a.patch.zst",
                        "x-y-z.patch.zst", "unknown1-unknown2.patch.zst", "a---b---c.patch.zst", "bad---.tar.zst", "README", "k.TAR.ZST", "w.tar.zst.bak", "bad-.tar.zst"])
        d = b"" if k.startswith(("empty", "e-f")) else rng.randbytes(rng.randint(1, 40))
        if k not in L:
            J[k] = d
    return J


def run(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    vs, truth, L, R = fill(w, rng, d["many"])
    J = junk(w, rng, L, vs, "l")
    RJ = {n: b for n, b in junk(w, rng, R, vs, "r").items() if n not in L}
    for n, b in list(L.items()) + list(J.items()):
        w.put_local(n, b)
    for n, b in list(R.items()) + list(RJ.items()):
        w.remote.put(n, b)
    links = 0
    if rng.random() < .6:
        os.symlink(os.path.join(w.local, (vs[0] if vs[0] + ".tar.zst" in L else "gone") + ".tar.zst"), os.path.join(w.local, "current"))
    if rng.random() < .4:
        write(os.path.join(w.src, "target"), zs.compress(b"linked"))
        os.symlink(os.path.join(w.src, "target"), os.path.join(w.local, "linked.tar.zst"))
        links = 1
    if rng.random() < .4:
        os.mkdir(os.path.join(w.local, "dir.tar.zst"))
        write(os.path.join(w.local, "dir.tar.zst", "q.tar.zst"), b"inner")
    # the command
    cmd = d["cmd"]
    args, added, replaced = ["sync"], None, False
    if cmd != "sync":
        new = "fresh-1" if cmd != "upload_replace" or not L else rng.choice([n for n in L if is_build(n)] or ["fresh-1.tar.zst"])[:-8]
        if cmd == "pkg_upload":
            t = os.path.join(w.src, "tree")
            os.mkdir(t)
            write(os.path.join(t, "f"), content(rng))
            args = ["add-package", new, t, "--upload"]
        else:
            f = os.path.join(w.src, new + ".tar.zst")
            x = zs.compress(mutate(rng, truth[vs[0]]) + b"!")
            write(f, x)
            args = ["add", f, "--upload"]
            if cmd == "upload_calc":
                args += ["--calc-patch-from", vs[0]]
        added = new
    known = {n[:-8] for n in list(L) + list(R) if is_build(n)} | ({added} if added else set())
    rk = {n for n, b in R.items() if b}

    def expected(Lnow):
        out = {}
        for n, b in Lnow.items():
            if n in rk or not b or n in J or not is_artefact(n):
                continue
            if is_patch(n) and not any(patch_name(a, b2) == n for a in known for b2 in known if a != b2):
                continue
            out[n] = b
        return out
    before = w.remote.files()
    what = "%s to %s" % (cmd, d["remote"])
    shim = {}
    fails = d["fail"]
    hits = [0]
    if fails:
        code = rng.choice([500, 503, 403, 400, 404, 409, 412, 429, 307, "drop", "BadDigest"])
        nth = dict(first=1, some=rng.randint(1, 3), all=0, last=10 ** 9)[fails]
        if w.srv:
            mu = threading.Lock()
            total = len(expected(L)) + (1 if added and added + ".tar.zst" not in rk else 0)
            cnt = [0]

            def hook(rec):
                if rec["kind"] != "PUT":
                    return None
                with mu:
                    cnt[0] += 1
                    c = cnt[0]
                if nth == 0 or c == nth or (nth > 10 ** 6 and c == total):
                    hits[0] += 1
                    if code == "drop":
                        return s3mod.Answer(drop=True)
                    return s3mod.s3error(code if code != "BadDigest" else 400, "BadDigest" if code == "BadDigest" else "Nope")
                return None
            w.srv.hook = hook
        else:
            k = max(1, 3 * (nth - 1) + rng.randint(1, 3)) if 0 < nth < 10 ** 6 else rng.choice([1, 4])
            shim = dict(fail="%d:%d%s" % (k, rng.choice([28, 5, 13]), ":s" if nth == 0 else ""), fclass="M", fmatch=w.remote.path + "/")
    r = w.run(*args, shim=shim)
    if w.srv:
        w.srv.hook = None
    else:
        hits[0] = sum(e.cls == "F" and e.op != "unlink" for e in r.events)
    retried_ok = w.srv and fails and r.ok
    if hits[0]:
        if r.ok and not (w.srv and uploaded_all(w, expected(w.lfiles()))):
            raise Violation("%s: an upload failed, but the command succeeded: %s" % (what, r))
    elif not r.ok:
        raise Violation("%s failed: %s" % (what, r))
    obs.count("failed_uploads", hits[0])
    Lnow = w.lfiles()
    for n, b in L.items():
        if n not in Lnow or (Lnow[n] != b and n != (added or "") + ".tar.zst"):
            raise Violation("%s changed the local %r" % (what, n))
    exp = expected(Lnow)
    after = w.remote.files()
    compare(before, after, exp, what, complete=r.ok, tmp_ok=hits[0] and w)
    # temporary files come and go in a directory
    wr = [n for n in w.remote.written(r) if w.srv or n in before or n in after]
    wr = [n for n in wr if not (hits[0] and temporary(n, w, before))]
    bad = [n for n in wr if n not in exp]
    if bad:
        raise Violation("%s: uploaded %s, which it must not" % (what, bad))
    obs.count("uploads_seen", len(wr))
    if w.srv and r.ok:
        dup = [n for n in wr if wr.count(n) > 1]
        if dup and not hits[0]:
            raise Violation("%s: uploaded %s more than once" % (what, sorted(set(dup))))
    # later syncs: complete the rest, then transfer nothing
    r2 = w.ok("sync")
    after = w.remote.files()
    exp = expected(w.lfiles())
    compare(before, after, exp, what + ", then sync", complete=True, tmp_ok=hits[0] and w)
    r3 = w.ok("sync")
    if w.remote.written(r3):
        raise Violation("a second sync transferred %s" % w.remote.written(r3))
    if not hits[0] and not retried_ok and w.remote.written(r2):
        raise Violation("a second sync transferred %s" % w.remote.written(r2))
    if w.remote.files() != after:
        raise Violation("a second sync changed the remote")
    obs.count("syncs_judged", 3)
    obs.count("uploads_expected", len(exp))
    obs.key(d["remote"], cmd, fails, bool(hits[0]), min(len(exp), 9), min(len(rk), 9), len(J), links)
    obs.sample = dict(command=args[0], remote=d["remote"], fail=fails, failed=hits[0], uploaded=sorted(exp)[:6], foreign=sorted(J), kept=sorted(rk)[:6])


def temporary(n, w, before):
    """may be what a failed upload to a directory left"""
    return not w.srv and not is_artefact(n) and n not in before and not os.path.lexists(os.path.join(w.local, n))


def uploaded_all(w, exp):
    f = w.remote.files()
    return all(f.get(n) == b for n, b in exp.items())


def compare(before, after, exp, what, complete, tmp_ok):
    for n, b in before.items():
        if n not in after:
            raise Violation("%s: %r has gone from the remote" % (what, n))
        if after[n] != b and n not in exp:
            raise Violation("%s: %r on the remote has been overwritten" % (what, n))
    for n, b in after.items():
        if n in before and n not in exp:
            continue
        if n not in exp:
            if tmp_ok and temporary(n, tmp_ok, before):
                continue
            raise Violation("%s: %r has been uploaded, which it must not" % (what, n))
        if b != exp[n] and not (n in before and before[n] == b and not b):
            raise Violation("%s: %r on the remote differs from the local file (%d instead of %d bytes)" % (what, n, len(b), len(exp[n])))
    if complete:
        miss = [n for n in exp if n not in after or after[n] != exp[n]]
        if miss:
            raise Violation("%s succeeded, but %s are missing on the remote" % (what, miss[:5]))
