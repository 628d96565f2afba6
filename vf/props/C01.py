import io, subprocess, tarfile
import trees
from world import *

LEVEL = "exploration"
RULE = ("Each case packages a random tree or single file (odd and non-UTF-8 names, long paths, size edges, all permission bits, links, "
        "special files, empty directories) under one compression setting and compares every member of the published archive, read with an "
        "independent zstd and tar reader (and GNU tar), with the source; fault cases make each opening or reading call on the source fail "
        "in turn, or a file becomes longer or shorter between being looked at and being read. Distinct by multiset of (name class, size class, mode), kinds of extras and compression setting, or by failing call.")
ASSUMPTIONS = ["the source does not change while it is packaged, except that one file may become longer or shorter", "the tar and zstd readers used by the oracle are right"]
GB = 1 << 30
LEVELS = ["1", "1", "1", "1", None, "3", "9", "19", "0", "-3", "abc", "", "22", "99", "-7", "1.5", "999999999999"]

# around the limits of 32-bit sizes and of the octal numbers in tar headers
HUGE = [4 * GB + 5, 8 * GB + 1, 8 * GB - 1, 8 * GB, 2 * GB, 2 * GB - 1, 4 * GB - 1, 4 * GB, 12 * GB + 3]


def cases(tier, rng):
    n = 900 if tier == "quick" else 8000
    cs = [dict(mode="huge", level="1", size=s) for s in HUGE[:2 if tier == "quick" else 9]]
    cs += [dict(mode="tree", level=LEVELS[i % len(LEVELS)] if i % 3 == 0 else "1", big=i % 20 == 0) for i in range(n)]
    cs += [dict(mode="file", level="1", big=i % 10 == 0) for i in range(n // 6)]
    cs += [dict(mode="deep", level="1") for i in range(n // 12)]
    cs += [dict(mode="fault", level="1") for i in range(n // 8)]
    cs += [dict(mode="grow", level="1") for i in range(n // 8)]
    cs += [dict(mode="wide", level="1") for i in range(max(2, n // 200))]
    cs.insert(0, dict(mode="many", level="1", n=rng.choice([66000, 70000])))
    return cs


def members(data, what):
    raw = zs.try_decompress(data)
    if raw is None:
        raise Violation("%s is not complete zstd data" % what)
    out = {}
    try:
        with tarfile.open(fileobj=io.BytesIO(raw), mode="r:", errors="surrogateescape", encoding="utf-8", errorlevel=2) as tf:
            for m in tf:
                n = m.name.encode("utf-8", "surrogateescape")
                if not m.isreg():
                    raise Violation("%s: member %r has type %r" % (what, n, m.type))
                if n in out:
                    raise Violation("%s: member %r twice" % (what, n))
                b = tf.extractfile(m).read()
                if len(b) != m.size:
                    raise Violation("%s: member %r cut short" % (what, n))
                out[n] = (m.mode & 0o7777, b)
            end = tf.offset
    except tarfile.TarError as e:
        raise Violation("%s is not a readable tar archive: %s" % (what, e))
    if raw[-1024:] != bytes(1024):
        raise Violation("%s: end-of-archive marker missing" % what)
    return out, raw


def judge(w, want, data, what):
    got, raw = members(data, what)
    if got != want:
        for k in sorted(set(got) | set(want)):
            if k not in got:
                raise Violation("%s lacks %r" % (what, k))
            if k not in want:
                raise Violation("%s has foreign member %r" % (what, k))
            if got[k] != want[k]:
                raise Violation("%s: member %r differs: mode %o/%o, size %d/%d" % (what, k, got[k][0], want[k][0], len(got[k][1]), len(want[k][1])))
    w.obs.count("members_compared", len(want))
    return raw


def run(d, w, obs):
    rng = w.rng
    w.use_dir()
    w.level = d["level"]
    ver = rng.choice(["1", "v1.2", "x-y"])
    if d["mode"] == "huge":
        return huge(d, w, obs, ver)
    top = os.path.join(w.src, rng.choice(["pkg", "odd name", "s.tar", "ünï"]))
    if d["mode"] == "file":
        t = {}
        while not t:
            t = {k: v for k, v in trees.gen(rng, d["big"]).items() if b"/" not in k and trees.ok(k)}
        p = rng.choice(sorted(t))
        trees.make(top, t)
        want = {p: t[p]}
        src = os.path.join(top, os.fsdecode(p))
        if rng.random() < .2:   # through a symbolic link
            ln = os.path.join(w.src, "ln")
            os.symlink(src, ln)
            src = ln
    else:
        if d["mode"] == "deep":
            t = {}
            if rng.random() < .5:                  # many levels
                k = rng.choice([20, 50, 64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 900])
                p = b"/".join(rng.choice([b"a", b"b", b"c"]) for _ in range(k))
                t[p] = (rng.choice(trees.MODES), b"deep down")
                t[b"/".join([p.rpartition(b"/")[0], b"z"])] = (0o644, b"beside")
            for _ in range(rng.randint(1, 4)):
                L = rng.choice([95, 99, 100, 101, 102, 150, 155, 156, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 2000])
                p = b""
                while len(p) < L:
                    seg = bytes([rng.choice(b"abcXYZ")]) * min(L - len(p), rng.choice([1, 9, 50, 99, 100, 101, 200, 255]))
                    p = p + b"/" + seg if p and len(p) + 1 + len(seg) <= L else p + (seg if not p else seg[:max(0, L - len(p))][:0])
                    if len(p) + 2 > L:
                        break
                t[p] = (rng.choice(trees.MODES), rng.randbytes(rng.choice(trees.SIZES)))
            t = {p: v for p, v in t.items() if not any(q.startswith(p + b"/") for q in t)}
        elif d["mode"] == "many":       # more than 16 bits can count
            t = {b"d%d/%d" % (i // 3000, i): (0o644, b"x" if i % 1000 == 7 else b"") for i in range(d["n"])}
        elif d["mode"] == "wide":
            t = {b"d%d/f%03d" % (i % 7, i): (0o644, b"%d" % i) for i in range(700)}
        else:
            t = trees.gen(rng, d.get("big"))
            if d["mode"] in ("fault", "grow"):
                while len(t) < 2:
                    t = trees.gen(rng)
        if d["mode"] == "tree" and rng.random() < .15:     # named like what contains it
            p = os.path.join(rng.choice([os.path.dirname(q) for q in sorted(t)] or [b""]), os.path.basename(os.fsencode(top)))
            if p not in t and not any(q.startswith(p + b"/") for q in t):
                t[p] = (0o640, b"same name")
        now = time.time()
        trees.make(top, t, mtime=(lambda: rng.choice([0, 1, -1, -10 ** 9, now + 5, now + 10 ** 5, 2 ** 31, 2 ** 33 + 5, now])) if rng.random() < .4 else None,
                   owner=(lambda: (rng.choice([0, 0, 1, 1000, 65534, 2 ** 21 + 5]), rng.choice([0, 100, 70000]))) if rng.random() < .3 else None)
        ex = trees.extras(rng, top, t)
        want = dict(t)
        if t and d["mode"] != "grow" and rng.random() < .2:     # a second name for the same file
            p = rng.choice(sorted(t))
            q = os.path.join(os.path.dirname(p), b"hard.link")
            os.link(os.path.join(os.fsencode(top), p), os.path.join(os.fsencode(top), q))
            want[q] = t[p]
        src = top
        k = rng.randrange(6)
        if k == 0:
            src += "/"
        elif k == 1:
            src = os.path.join(w.root, "ln")
            os.symlink(top, src)
        elif k == 2:
            src = os.path.relpath(top, os.path.join(w.root, "cwd"))
    if d["mode"] == "fault":
        return faults(w, obs, ver, src, top, want)
    if d["mode"] == "grow":
        return grows(w, obs, ver, src, top, want)
    args = ["add-package", ver, src]
    if rng.random() < .3:
        args.append("--upload")
    shim = dict(readdir=rng.randrange(99))
    if rng.random() < .15:
        shim["short"] = rng.randrange(999)      # short reads and writes everywhere
    if d["mode"] != "file" and rng.random() < .25:      # a file system is mounted somewhere in the source
        ds = sorted({os.path.dirname(p) for p in want if b"/" in p})
        if ds:
            x = rng.choice(ds).split(b"/")
            shim["mount"] = os.path.join(os.path.realpath(top), os.fsdecode(b"/".join(x[:rng.randint(1, len(x))])))
            obs.count("mounts_in_sources")
    r = w.run(*args, shim=shim)
    if not r.ok:
        # the archive format library refuses some paths beyond the header limit that
        # are not UTF-8; a refusal is allowed there, publishing anything is not
        if any(not trees.ok(p) and len(p) > 99 for p in want) and not any(map(is_artefact, w.lfiles())):
            obs.count("refused_long_non_utf8_path")
            return
        raise Violation("packaging failed although the source is readable: %s" % r)
    data = w.lfiles().get(ver + ".tar.zst")
    if data is None:
        raise Violation("build %r was not published" % ver)
    raw = judge(w, want, data, "build")
    if "--upload" in args:
        judge(w, want, w.remote.get(ver + ".tar.zst") or b"", "uploaded build")
    if rng.random() < .2:
        f = os.path.join(w.ctl, "a.tar")
        write(f, raw)
        p = subprocess.run(["tar", "-t", "-f", f], capture_output=True)
        if p.returncode or p.stderr:
            raise Violation("GNU tar cannot read the archive: %s" % p.stderr.decode(errors="replace"))
        obs.count("gnu_tar_reads")
    obs.count("packages_judged")
    obs.key(d["mode"], d["level"], sorted((len(k) // 20, trees.ok(k), len(v[1]), v[0]) for k, v in want.items()))
    obs.sample = dict(level=d["level"], members={ascii(k): [oct(v[0]), len(v[1])] for k, v in list(want.items())[:6]})


def faults(w, obs, ver, src, top, want):
    """each opening or reading call on the source fails in turn"""
    r = w.run("add-package", ver, src)
    if not r.ok:
        if any(not trees.ok(p) and len(p) > 99 for p in want):
            return
        raise Violation("packaging failed although the source is readable: %s" % r)
    os.unlink(os.path.join(w.local, ver + ".tar.zst"))
    rtop = os.path.realpath(top)
    n = sum(1 for e in r.events if e.cls == "R" and (e.path == rtop or e.path.startswith(rtop + "/")))
    ks = range(1, n + 1)
    if n > 40:
        ks = sorted(w.rng.sample(ks, 40))
    for k in ks:
        r = w.run("add-package", ver, src, shim=dict(fail="%d:%d" % (k, w.rng.choice([5, 5, 2, 13, 116])), fclass="R", fmatch=rtop))
        f = [e for e in r.events if e.cls == "F"]
        if not f:
            raise Inconclusive("fault %d/%d not reached" % (k, n))
        got = w.lfiles()
        if r.ok:
            data = got.get(ver + ".tar.zst")
            judge(w, want, data or b"", "build published despite a failing %s of %r" % (f[0].op, f[0].path))
            os.unlink(os.path.join(w.local, ver + ".tar.zst"))
        elif any(map(is_artefact, got)):
            raise Violation("packaging failed (%s of %r) but published %s" % (f[0].op, f[0].path, sorted(got)))
        obs.count("source_faults_judged")
        obs.key("fault", f[0].op, k, n, r.ok)
    obs.sample = dict(faulted_calls=n)


def grows(w, obs, ver, src, top, want):
    """a file changes its length after it has been looked at"""
    rng = w.rng
    rtop = os.path.realpath(top)
    p = rng.choice(sorted(want))
    delta = rng.choice([1, -1, 7, -7, 511, 512, 513, -512, 1024, 30000, -30000, -len(want[p][1])])
    r = w.run("add-package", ver, src, shim=dict(grow="%d:%s" % (delta, os.path.join(rtop, os.fsdecode(p)))))
    g = [e for e in r.events if e.cls == "G"]
    got = w.lfiles()
    if r.ok:
        q = os.fsencode(os.path.relpath(g[0].path, rtop)) if g else p
        m, raw = members(got.get(ver + ".tar.zst") or b"", "build of a source with a changing file")
        if q in m and q in want:
            new = want[q][1] + b"g" * delta if delta > 0 else want[q][1][:max(0, len(want[q][1]) + delta)]
            if m[q][1] not in (want[q][1], new):
                raise Violation("member %r has neither the old nor the new content of the file, which changed its length by %d" % (q, delta))
            want[q] = (want[q][0], m[q][1])
        judge(w, want, got[ver + ".tar.zst"], "build of a source with a changing file (by %d)" % delta)
    elif any(map(is_artefact, got)):
        raise Violation("packaging failed (file changed its length by %d) but published %s" % (delta, sorted(got)))
    if g:
        obs.count("changing_files_judged")
    obs.key("grow", delta, r.ok, len(want[p][1]) % 512 < 10)


def huge(d, w, obs, ver):
    """a file too large for many a number, mostly holes"""
    size = d["size"]
    marks = {0: b"start", size // 2: b"middle", (4 * GB if size > 4 * GB + 4 else size - 40): b"4", size - 3: b"end"}
    top = os.path.join(w.src, "big")
    os.mkdir(top)
    with open(os.path.join(top, "b.bin"), "wb") as f:
        f.truncate(size)
        for o, m in marks.items():
            f.seek(o)
            f.write(m)
    write(os.path.join(top, "z"), b"after it")
    w.ok("add-package", ver, top, timeout=400, shim=dict(roots="/nonexistent"))
    os.unlink(os.path.join(top, "b.bin"))
    pos, head, zero = 0, b"", bytes(1 << 20)
    found = {}
    pad = -size % 512
    for c in zs.chunks(w.lfiles()[ver + ".tar.zst"]):
        if c != zero[:len(c)]:
            for i in range(0, len(c), 4096):
                b = c[i:i + 4096]
                if b.count(0) != len(b):
                    found[pos + i] = b
        pos += len(c)
    if pos != 512 + size + pad + 512 + 512 + 1024:
        raise Violation("archive of files with %d and 8 bytes has %d bytes" % (size, pos))
    def at(o, n):
        r = b""
        while len(r) < n:
            k = max((x for x in found if x <= o + len(r)), default=None)
            b = found[k][o + len(r) - k:] if k is not None else b""
            if not b:
                nxt = min((x for x in found if x > o + len(r)), default=o + n)
                b = bytes(min(nxt, o + n) - o - len(r))
            r += b
        return r[:n]
    for o, nm, n in ((0, "b.bin", size), (512 + size + pad, "z", 8)):
        t = tarfile.TarInfo.frombuf(at(o, 512), "utf-8", "strict")
        if (t.name, t.size) != (nm, n) or not t.isreg():
            raise Violation("member %r with %d bytes has become %r with %d" % (nm, n, t.name, t.size))
    for o, m in marks.items():
        if at(512 + o, len(m)) != m:
            raise Violation("file of %d bytes: content at %d is %r instead of %r" % (size, o, at(512 + o, len(m)), m))
    if at(512 + size + pad + 512, 8) != b"after it":
        raise Violation("the file after one of %d bytes is damaged" % size)
    known = [range(0, 512), range(512 + size + pad, 512 + size + pad + 1024)] + [range(512 + o, 512 + o + len(m)) for o, m in marks.items()]
    for k, b in found.items():
        for i, x in enumerate(b):
            if x and not any(k + i in r for r in known):
                raise Violation("file of %d bytes: foreign byte at %d" % (size, k + i))
    obs.count("huge_files_compared")
    obs.key("huge", size)
