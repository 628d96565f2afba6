import s3 as s3mod
from world import *

LEVEL = "exploration"
RULE = ("Each case writes a file of a chosen size (1 byte, block, page and buffer edges, several MB) and content (noise, zeros, sparse, text, repetitive) "
        "and makes a command copy it: add from many kinds of paths, fetching a build (install, create-patch) or a patch, "
        "uploading (sync, add with upload); directory and S3 remotes, sometimes with short reads and writes. Source and destination are compared byte by "
        "byte, names exactly, and the source (content, mode, time) with its state before; afterwards each is changed in place, which must not show in the other. Adds of missing, unreadable, empty or unsuitable sources must "
        "fail without trace. Distinct by direction, remote, size, kind of content and of path.")
ASSUMPTIONS = ["a build file that is given through a symbolic link may be named after the link or after the file it leads to"]
SIZES = [1, 2, 3, 4, 5, 8, 12, 22, 33, 100, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100001, 131071, 131072, 131073,
         262144, 500000, 1048575, 1048576, 1048577]
BIG = [2097152, 2097153, 3000001, 5242880, 5242881, 9000000]
KINDS = ["noise", "zeros", "zstd", "text", "rep", "sparse", "ff", "crlf"]
PATHS = ["plain", "relative", "dotdot", "link", "linkdir", "space", "remote", "hardlink", "sibling", "readonly", "double"]
BAD = ["missing", "empty", "dir", "fifo", "dangling", "loop", "eacces", "eio0", "eio1", "instore", "instore_rel", "notdir", "devnull", "gone"]


def cases(tier, rng):
    cs = []
    rounds = 12 if tier == "quick" else 120
    for r in range(rounds):
        sizes = SIZES + (rng.sample(BIG, 2) if tier == "quick" else BIG) + [rng.randint(1, 300000) for _ in range(10)]
        for how in ("add", "fetch_build", "fetch_patch", "sync", "upload", "create"):
            for i, s in enumerate(sizes):
                # directory and S3, alternating over rounds and seeds
                rem = rng.choice(["dir", "s3"])
                cs.append(dict(how=how, size=s, remote=rem, kind=rng.choice(KINDS), path=PATHS[(i + r) % len(PATHS)] if how == "add" else "plain",
                               short=i % 4 == 1 and s < 200000, r=r))
        for b in BAD:
            for pre in (0, 1):
                for rem in ("dir", "s3"):
                    cs.append(dict(how="bad", bad=b, pre=pre, remote=rem, r=r))
    rng.shuffle(cs)
    cs.sort(key=lambda c: -c.get("size", 0))
    return cs


def body(rng, kind, n, path=None):
    if kind == "noise":
        return rng.randbytes(n)
    if kind == "zeros":
        return bytes(n)
    if kind == "ff":
        return b"\xff" * n
    if kind == "sparse":
        return (bytes(n - 1) + b"\x01") if n > 1 else b"\x01"
    if kind == "text":
        return (b"hello world %d\n" % rng.randrange(99) * (n // 14 + 1))[:n]
    if kind == "crlf":
        return (b"line\r\n\x1a\x00\n\r" * (n // 10 + 1))[:n]
    if kind == "rep":
        u = rng.randbytes(rng.choice([3, 4096, 8192]))
        return (u * (n // len(u) + 1))[:n]
    z = zs.compress(rng.randbytes(max(1, n - 30)))
    return z if len(z) >= n else z + zs.skippable(n - len(z)) if n - len(z) >= 8 else z


def put_file(path, b, kind):
    if kind == "sparse" and len(b) > 1:
        with open(path, "wb") as f:
            f.truncate(len(b) - 1)
            f.seek(len(b) - 1)
            f.write(b"\x01")
    else:
        write(path, b)


def run(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    # bystanders, which must stay as they are
    v0, v1 = rng.sample(["0.9", "bystander-1", "zz"], 2)
    w.put_local(v0 + ".tar.zst", zs.compress(b"bystander"))
    w.remote.put(v0 + ".tar.zst", zs.compress(b"bystander"))
    if d["how"] == "bad":
        return bad(d, w, obs)
    b = body(rng, d["kind"], d["size"])
    shim = dict(short=rng.randrange(10 ** 6)) if d["short"] else {}
    v = rng.choice(["1.0", "m-2", "é 1", "build+7"])
    n = v + ".tar.zst"
    how = d["how"]
    what = "%s (%s, %d bytes of %s)" % (how, d["remote"], len(b), d["kind"])
    names_ = [n]
    mode = rng.choice([0o600, 0o640, 0o644, 0o444, 0o755, 0o664, 0o400, 0o666, 0o750])
    if how == "add":
        args, cwd, names_ = source(d, w, rng, n, b)
        f = os.path.realpath(os.path.join(cwd or "/", args[0]))
        if d["path"] != "readonly":
            os.chmod(f, mode)
        mode = os.stat(f).st_mode & 0o7777
        if rng.random() < .3:   # an older build under this name
            w.put_local(n, rng.choice([b"old" * rng.randint(1, 4000), bytes(x ^ 1 for x in b[:1]) + b[1:], b[:-1] + bytes(x ^ 128 for x in b[-1:]), b + b"x", b[:-1] or b"?"]))
        before = state(w)
        r = w.ok("add", *args, shim=shim, cwd=cwd)
        got = [x for x in names_ if x in w.lfiles() and w.lfiles()[x] == b]
        if not got:
            raise Violation("%s from %s: %s" % (what, d["path"], differ(b, w.lfiles().get(n))))
        compare(w, before, {"local/" + x for x in names_}, what)
        perms(w, "local", got[0], mode, what)
    elif how in ("fetch_build", "create"):
        w.remote.put(n, b)
        chmod(w, "remote", n, mode)
        before = state(w)
        if how == "fetch_build":
            w.ok("install", v, shim=shim)
            extra = {"local/current"}
        else:
            # a source of a patch has to be a real build
            b = zs.compress(b)
            w.remote.put(n, b)
            chmod(w, "remote", n, mode)
            before = state(w)
            w.ok("create-patch", v0, v, shim=shim)
            extra = {"local/" + patch_name(v0, v)}
        same(b, w.lfiles().get(n), what)
        compare(w, before, {"local/" + n} | extra, what)
        if not w.srv:
            perms(w, "local", n, mode, what)
    elif how == "fetch_patch":
        # a patch that is known need not be created, only fetched
        w.put_local(n, zs.compress(b"two"))
        p = patch_name(v0, v)
        w.remote.put(p, b)
        chmod(w, "remote", p, mode)
        before = state(w)
        w.ok("create-patch", v0, v, shim=shim)
        same(b, w.lfiles().get(p), what)
        compare(w, before, {"local/" + p}, what)
        if not w.srv:
            perms(w, "local", p, mode, what)
    elif how == "sync":
        p = patch_name(v0, v)
        b2 = body(rng, rng.choice(KINDS), rng.choice(SIZES[:20]))
        w.put_local(n, b)
        w.put_local(p, b2)
        chmod(w, "local", p, mode)
        chmod(w, "local", n, mode)
        before = state(w)
        w.ok("sync", shim=shim)
        same(b, w.remote.files().get(n), what)
        same(b2, w.remote.files().get(p), what + ", the patch")
        compare(w, before, {"remote/" + n, "remote/" + p}, what)
        perms(w, "remote", p, mode, what)
        perms(w, "remote", n, mode, what)
    else:
        f = os.path.join(w.src, n)
        write(f, b)
        os.chmod(f, mode)
        before = state(w)
        w.ok("add", f, "--upload", shim=shim)
        same(b, w.lfiles().get(n), what)
        same(b, w.remote.files().get(n), what + ", at the remote")
        compare(w, before, {"local/" + n, "remote/" + n}, what)
        perms(w, "local", n, mode, what)
        perms(w, "remote", n, mode, what)
    if rng.random() < .5 and d["size"] < 300000:
        independent(w, obs, [n] + names_, what)
    obs.count("copies_compared")
    obs.count("bytes_compared", len(b))
    obs.key(how, d["remote"], len(b), d["kind"], d["path"], d["short"])
    obs.sample = dict(how=how, remote=d["remote"], size=len(b), kind=d["kind"], path=d["path"], name=n)


def independent(w, obs, ns, what):
    """a copy stays as it is when its original is changed in place, and the other way round"""
    places = [w.local, w.src] + ([w.remote.path] if not w.srv else []) + [os.path.join(w.root, "src", "a dir\nwith  odd ü name---x"), w.local + "-2"]
    files = [p for p in (os.path.join(a, n) for a in places for n in sorted(set(ns))) if os.path.isfile(p) and not os.path.islink(p)]
    for p in files:
        was = {q: read(q) for q in files}
        mode = os.stat(p).st_mode
        os.chmod(p, 0o600)
        with open(p, "r+b") as f:
            f.write(bytes([was[p][0] ^ 255]))
        for q in files:
            if q != p and not os.path.samefile(os.path.dirname(q), os.path.dirname(p)) and read(q) != was[q]:
                raise Violation("%s: %r changed when %r was written to" % (what, os.path.relpath(q, w.root), os.path.relpath(p, w.root)))
        os.chmod(p, mode)
        obs.count("copies_modified")


def chmod(w, where, n, mode):
    if where == "local" or not w.srv:
        os.chmod(os.path.join(w.local if where == "local" else w.remote.path, n), mode)


def perms(w, where, n, mode, what):
    """a file that was copied is open to the same users as its original"""
    if where == "local" or not w.srv:
        m = os.stat(os.path.join(w.local if where == "local" else w.remote.path, n)).st_mode & 0o7777
        if m != mode:
            raise Violation("%s: the copy of %r in the %s store has mode %o instead of %o" % (what, n, where, m, mode))


def same(want, got, what):
    if want != got:
        raise Violation("%s: %s" % (what, differ(want, got)))


def differ(want, got):
    if got is None:
        return "nothing arrived"
    if len(want) != len(got):
        return "%d bytes arrived instead of %d" % (len(got), len(want))
    i = next((i for i in range(len(want)) if want[i] != got[i]), None)
    return "byte %s of %d differs" % (i, len(want))


def state(w):
    t = {os.fsdecode(k): v for k, v in tree(w.root).items()}
    if w.srv:
        for k, v in w.remote.files().items():
            t["remote/" + k] = ("object", v)
        t["objects"] = ("object", tuple(sorted(k for k in w.srv.objects)))
    return t


def compare(w, before, may, what):
    after = state(w)
    if w.srv:
        before, after = dict(before), dict(after)
        before.pop("objects"), after.pop("objects")
    ds = diff(before, after, lambda k: k in may)
    if ds:
        raise Violation("%s: also %s" % (what, "; ".join(ds[:4])))


def source(d, w, rng, n, b):
    """the build file and the way it is named on the command line"""
    p = os.path.join(w.src, n)
    cwd = None
    k = d["path"]
    names_ = [n]
    if k == "remote" and w.srv:
        k = "plain"
    if k == "remote":
        p = os.path.join(w.remote.path, n)
        put_file(p, b, d["kind"])
        return [p], None, names_
    put_file(p, b, d["kind"])
    arg = p
    if k == "relative":
        arg, cwd = n, w.src
    elif k == "dotdot":
        arg, cwd = "../src/./" + n, os.path.join(w.root, "cwd")
    elif k == "link":
        arg = os.path.join(w.src, "latest.tar.zst")
        os.symlink(n if rng.random() < .5 else p, arg)
        names_ = [n, "latest.tar.zst"]
    elif k == "linkdir":
        os.symlink("src", os.path.join(w.root, "sl"))
        arg = os.path.join(w.root, "sl", n)
    elif k == "space":
        e = os.path.join(w.src, "a dir\nwith  odd ü name---x")
        os.mkdir(e)
        arg = os.path.join(e, n)
        os.rename(p, arg)
    elif k == "hardlink":
        os.link(p, os.path.join(w.src, "other"))
    elif k == "sibling":     # a directory whose name merely begins like the local store's
        e = w.local + "-2"
        os.mkdir(e)
        arg = os.path.join(e, n)
        os.rename(p, arg)
    elif k == "readonly":
        os.chmod(p, 0o444)
    elif k == "double":
        arg = p.replace("/src/", "//src///")
    return [arg], cwd, names_


def bad(d, w, obs):
    rng = w.rng
    v = "5.0"
    n = v + ".tar.zst"
    k = d["bad"]
    p = os.path.join(w.src, n)
    if d["pre"]:
        w.put_local(n, zs.compress(b"the former build"))
    shim, cwd = {}, None
    if k == "empty":
        write(p, b"")
    elif k == "dir":
        os.mkdir(p)
        write(os.path.join(p, "x"), b"x")
    elif k == "fifo":
        os.mkfifo(p)
    elif k == "dangling":
        os.symlink("gone", p)
    elif k == "loop":
        os.symlink(n, p)
    elif k in ("eacces", "eio0", "eio1", "gone"):
        write(p, rng.randbytes(40000))
        shim = dict(fail=dict(eacces="1:13:s", eio0="2:5:s", eio1="3:5:s", gone="1:2:s")[k], fclass="R", fmatch=p)
    elif k == "instore":
        p = os.path.join(w.local, n)
        w.put_local(n, zs.compress(b"already there"))
    elif k == "instore_rel":
        w.put_local(n, zs.compress(b"already there"))
        p, cwd = "./" + n, w.local
    elif k == "notdir":
        write(os.path.join(w.src, "f"), b"f")
        p = os.path.join(w.src, "f", n)
    elif k == "devnull":
        os.symlink("/dev/null", p)
    args = ["add", p] + rng.choice([[], [], ["--upload"], ["--upload", "--calc-patch-from", "0.9"]])
    # what sync would upload is there already
    for x, y in w.lfiles().items():
        w.remote.put(x, y)
    before = state(w)
    r = w.run(*args, shim=shim, cwd=cwd, timeout=20)
    what = "add of a source that is %s (%s)" % (k, args[2:])
    if shim and not any(e.cls == "F" for e in r.events):
        raise Inconclusive("no fault happened: %s %s" % (what, r))
    if r.ok:
        raise Violation("%s succeeded: %s" % (what, r))
    if r.rc < 0:
        raise Violation("%s: killed by a signal: %s" % (what, r))
    compare(w, before, set(), what)
    obs.count("bad_sources_judged")
    obs.key("bad", k, d["pre"], d["remote"], len(args))
