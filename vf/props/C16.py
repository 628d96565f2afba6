import socket
import ops
from world import *

LEVEL = "exploration"
RULE = ("Differential: each case prepares stores and one command (every subcommand, several situations), runs it, puts everything back, adds foreign and leftover files "
        "to the local store and the remote (directory or S3), including ones that resemble what the command works on, and runs it again. "
        "Judged are exit status, the artefacts in both stores, `current`, what was fetched and uploaded (all as without the foreign files), and that "
        "the foreign files are as before and were never opened, uploaded, renamed or removed. Then versions that only foreign files seem to offer are "
        "asked for and must be unknown. Distinct by command, remote and set of foreign files.")
ASSUMPTIONS = ["a foreign object that occupies exactly the name of a file the command has to create may be replaced, and a directory there may make it fail",
               "a patch file may be replaced by an add that creates exactly this patch"]


def cases(tier, rng):
    n = 32 if tier == "quick" else 700
    cs = []
    for j in range(n):
        for i, k in enumerate(ops.ALL):
            cs.append(dict(op=k, remote="s3" if (i + j) % 3 == 0 else "dir", i=j, heavy=j % 3 == 2))
    for j in range(n * 3):
        cs.append(dict(op="occupied", remote="s3" if j % 3 == 0 else "dir", i=j))
    return cs


def patch_like(vs, rng):
    """names that look like patches of known versions but are not theirs"""
    a, b = rng.sample(vs, 2)
    real_ = {patch_name(x, y) for x in vs for y in vs}
    c = ["%s-%s.patch.zst" % (a, b), "%s---%s.patch.zst" % (a, b), "%s--%s.patch.zst" % (a, b), "%s---%s---x.patch.zst" % (a, b), "%s.patch.zst" % a, "-%s.patch.zst" % b, "%s-%s.patch" % (a, b),
         "%s-%s.zst" % (a, b), "%s-%s.patch.zst.part" % (a, b), "._%s-%s.patch.zst" % (a, b), "%s_%s.patch.zst" % (a, b), "%s-unknown9.patch.zst" % a, "unknown9-%s.patch.zst" % b,
         "unknown8-unknown9.patch.zst", "%s---unk-9.patch.zst" % a, "%s-%s.PATCH.ZST" % (a, b), "%s----%s.patch.zst" % (a, b), "%s-%s-.patch.zst" % (a, b), "%s---%s-.patch.zst" % (a, b),
         "%s-%s.patch.old" % (a, b), "%s-%s.patch.zst.tmp" % (a, b), "%s-%s.patch.tmp" % (a, b), "%s-%s.patch.zst.old" % (a, b)]
    return [n for n in c if n not in real_]


def build_like(vs, rng):
    v = rng.choice(vs)
    return ["%s---x.tar.zst" % v, "%s-.tar.zst" % v, "---.tar.zst", "%s.tar.zst.part" % v, "%s.tar.zst~" % v, "%s.tar" % v, "%s.TAR.ZST" % v, "%s.tar.gz" % v, "%s.zst" % v, "%star.zst" % v, "%s.tar.zst.bak" % v,
            "._artefacta-temp-1600000000-1-0.part", "._artefacta-temp-1600000000%s.tar.zst.part" % v, ".%s.tar.zst.swp" % v, "README", "notes.txt", "%s" % v, "core", ".gitignore", "a\nb", "x" * 255,
            "index.json", "%s.tar.zst " % v, " .tar.zst.", "lost+found", "current.tmp", "current~", "Current", ".current",
            "%s.tar.old" % v, "%s.tar.zst.old" % v, "%s.tar.bak" % v, "%s.tar.tmp" % v, "%s.tar.part" % v, "%s.tar.zst.tmp" % v, "%s.tar.zst.new" % v, "%s.tmp" % v, "%s.part" % v,
            "%s.tar.zst.1" % v, "current.old", "current.new", "current.part", "%s.tar.lock" % v, "%s.tar.zst.lock" % v, ".lock", "lock"]


def drop_in(w, rng, o, heavy):
    """puts foreign files into both stores; returns (local junk names, remote junk names, versions only they seem to offer)"""
    vs = list(o.truth)
    create = set(o.l1) | set(o.r1) | {"current"}
    good = rng.choice([b for b in o.bytes.values()])
    fake = set()
    out = []
    for side in ("l", "r"):
        junk = set()
        top = w.local if side == "l" else (w.remote.path if w.remote.kind == "dir" else None)
        have = set(w.lfiles() if side == "l" else w.remote.files())
        count = rng.randint(1, 6) if not heavy else rng.randint(10, 40)
        for _ in range(count):
            k = rng.choice(["patchlike", "buildlike", "empty", "emptypatch", "dir", "patchdir", "link", "patchlink", "dangling", "loop", "nonutf8", "fifo", "socket", "linkdir", "subtree", "emptyreal"])
            body = rng.choice([good, rng.randbytes(50), b"", b"x"])
            v = "fake%d" % rng.randrange(30)
            n = dict(patchlike=lambda: rng.choice(patch_like(vs, rng)), buildlike=lambda: rng.choice(build_like(vs, rng)), empty=lambda: v + ".tar.zst", emptypatch=lambda: patch_name(*rng.sample(vs, 2)),
                     patchdir=lambda: patch_name(*rng.sample(vs, 2)), patchlink=lambda: patch_name(*rng.sample(vs, 2)), nonutf8=lambda: "bad\udcff%d%s" % (rng.randrange(9), rng.choice([".tar.zst", ".patch.zst", ""])),
                     subtree=lambda: "sub%d" % rng.randrange(9), emptyreal=lambda: rng.choice(vs) + ".tar.zst").get(k, lambda: v + ".tar.zst")()
            if n in create or n in have or n in junk or "/" in n or len(os.fsencode(n)) > 255:
                continue
            if top is None:
                if k in ("nonutf8",) or any(ord(c) < 32 for c in n):
                    continue
                key = w.remote.key(n)
                if k in ("dir", "subtree", "patchdir", "linkdir"):
                    for x in ("/", "/1.tar.zst", "/%s.tar.zst" % v):
                        w.srv.objects[key + x] = rng.choice([b"", good])
                    continue
                if k in ("empty", "emptypatch", "emptyreal"):
                    body = b""
                elif k not in ("patchlike", "buildlike"):
                    continue
                w.srv.objects[key] = body
                junk.add(n)
                continue
            p = os.path.join(top, n)
            if k in ("patchlike", "buildlike", "nonutf8"):
                write(p, body, rng.choice([0o644, 0o600, 0o400, 0]))
            elif k in ("empty", "emptypatch", "emptyreal"):
                write(p, b"")
            elif k in ("dir", "patchdir"):
                os.mkdir(p)
                if rng.random() < .5:
                    write(os.path.join(p, n), good)
            elif k == "subtree":
                os.makedirs(os.path.join(p, "deep"))
                for x in ("%s.tar.zst" % v, patch_name(*rng.sample(vs, 2)), "deep/1.tar.zst"):
                    write(os.path.join(p, x), good)
            elif k in ("link", "patchlink"):
                t = [x for x in have if is_artefact(x)]
                e = os.path.join(w.root, "elsewhere.tar.zst")
                write(e, good)
                os.symlink(rng.choice([e] + [os.path.join(top, x) for x in t] + t), p)
            elif k == "dangling":
                os.symlink(rng.choice(["gone", "/gone/x.tar.zst"]), p)
            elif k == "loop":
                os.symlink(n, p)
            elif k == "linkdir":
                os.symlink(rng.choice([top, "/", "."]), p)
            elif k == "fifo":
                os.mkfifo(p)
            elif k == "socket":
                if len(os.fsencode(p)) > 100:
                    continue
                s = socket.socket(socket.AF_UNIX)
                s.bind(p)
                s.close()
            if k in ("empty", "dir", "link", "dangling", "loop", "fifo", "socket", "linkdir") and n[:-8] not in vs:
                fake.add(n[:-8])
            junk.add(n)
        out.append(junk)
    return out[0], out[1], fake


def junk_state(w, lj, rj):
    def pick(top, names_):
        t = {}
        for n in names_:
            p = os.fsencode(os.path.join(top, n))
            st = os.lstat(p)
            t[n] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino)
            if os.path.islink(p):
                t[n] += (os.readlink(p),)
            elif os.path.isdir(p):
                t[n] += (tuple(sorted(tree(p).items())),)
            elif os.path.isfile(p):
                t[n] += (read(p),)
        return t
    out = dict(l=pick(w.local, lj))
    if w.remote.kind == "dir":
        out["r"] = pick(w.remote.path, rj)
    else:
        known = {w.remote.key(n) for n in w.remote.files() if n not in rj}
        out["r"] = {k: b for k, b in w.srv.objects.items() if k not in known}
    return out


def run(d, w, obs):
    if d["op"] == "occupied":
        return occupied(d, w, obs)
    rng = w.rng
    o = ops.make(w, rng, d["op"], d["remote"])
    ref = ops.reference(w, o, obs)
    f0 = sorted(w.remote.fetched(ref))
    u0 = sorted(n for n in set(w.remote.written(ref)) if is_artefact(n))
    lj, rj, fake = drop_in(w, rng, o, d["heavy"])
    what = "%s (%s) with %s in the local and %s in the remote store" % (d["op"], d["remote"], ascii(sorted(lj))[:300], ascii(sorted(rj))[:300])
    js = junk_state(w, lj, rj)
    r = w.run(*o.args)
    if not r.ok:
        raise Violation("%s failed: %s" % (what, r))
    check_junk(w, lj, rj, js, [r], what)
    mine = lambda fs, j: {n: b for n, b in fs.items() if n not in j}
    for side, now, want in (("local", mine(w.lfiles(), lj), o.l1), ("remote", mine(dict(w.remote.files()), rj), o.r1)):
        now = {n: b for n, b in now.items() if n != "current"}
        if set(now) != set(want):
            raise Violation("%s: the %s store has %s more, %s less than without" % (what, side, sorted(set(now) - set(want)), sorted(set(want) - set(now))))
        for n in now:
            if now[n] != want[n] and zs.try_decompress(now[n]) != zs.try_decompress(want[n]):
                raise Violation("%s: %r in the %s store is not as without" % (what, n, side))
    if ops.real(w) != o.cur1:
        raise Violation("%s: `current` leads to %r instead of %r" % (what, ops.real(w), o.cur1))
    f1 = sorted(w.remote.fetched(r))
    u1 = sorted(n for n in set(w.remote.written(r)) if is_artefact(n))
    if f1 != f0:
        raise Violation("%s: fetched %s instead of %s" % (what, f1, f0))
    if u1 != u0:
        raise Violation("%s: uploaded %s instead of %s" % (what, u1, u0))
    obs.count("differential_runs")
    obs.count("foreign_files", len(lj) + len(rj))
    # what only foreign files seem to offer
    rs = []
    for v in sorted(fake)[:3]:
        before = (w.lfiles(), ops.real(w))
        for args in (["install", v], ["create-patch", v, list(o.truth)[0]], ["create-patch", list(o.truth)[0], v]):
            r = w.run(*args)
            rs.append(r)
            if r.ok:
                raise Violation("%s: %s, a version that does not exist, succeeded: %s" % (what, args, r))
        if {n: b for n, b in w.lfiles().items() if n not in before[0] and not is_build(n)} or ops.real(w) != before[1]:
            raise Violation("%s: asking for %r changed something" % (what, v))
        obs.count("phantoms_refused")
    r = w.run("sync")
    if not r.ok:
        raise Violation("%s: then sync failed: %s" % (what, r))
    rs.append(r)
    r = w.run("debug")
    if not r.ok:
        raise Violation("%s: then debug failed: %s" % (what, r))
    check_junk(w, lj, rj, js, rs, what + ", afterwards")
    up = {n for n in w.remote.written(rs[-1]) if is_artefact(n)} & lj
    if up:
        raise Violation("%s: sync uploaded %s" % (what, up))
    extra = {n for n in w.remote.files() if n not in rj and n not in o.r1 and n not in w.lfiles()}
    if extra or any(n in w.remote.files() and n not in rj for n in lj):
        raise Violation("%s: foreign files reached the remote" % what)
    obs.key(d["op"], d["remote"], sorted(lj), sorted(rj))
    obs.sample = dict(op=d["op"], remote=d["remote"], local_junk=ascii(sorted(lj)[:6]), remote_junk=ascii(sorted(rj)[:6]), same_fetches=f0, same_uploads=u0)


def check_junk(w, lj, rj, js, rs, what):
    now = junk_state_safe(w, lj, rj, what)
    for side in "lr":
        for n in js[side]:
            if now[side].get(n) != js[side][n]:
                raise Violation("%s: the foreign %a was changed" % (what, n))
    paths = {os.path.join(w.local, n) for n in lj}
    if w.remote.kind == "dir":
        paths |= {os.path.join(w.remote.path, n) for n in rj}
    keys = {w.remote.key(n) for n in rj} if w.srv else set()
    for r in rs:
        for e in r.events:
            if e.cls in "MR" and e.op not in ("readlink",):
                for p in (e.path, e.path2):
                    if p in paths and os.path.isfile(p) and not os.path.islink(p):
                        raise Violation("%s: %s of the foreign %a" % (what, e.op, p))
        for q in r.requests:
            if q["kind"] != "LIST" and q["key"] in keys:
                raise Violation("%s: %s of the foreign %a" % (what, q["kind"], q["key"]))


def junk_state_safe(w, lj, rj, what):
    try:
        return junk_state(w, lj, rj)
    except FileNotFoundError as e:
        raise Violation("%s: a foreign file has disappeared: %s" % (what, e))


def occupied(d, w, obs):
    """an empty file or a link sits where the command has to create a file: the result is the same"""
    rng = w.rng
    kind = rng.choice(ops.INSTALL + ["add_new", "add_calc", "pkg_new", "create", "create_fetch", "auto", "sync_many"])
    o = ops.make(w, rng, kind, d["remote"])
    ops.reference(w, o, obs)
    new = [n for n in o.l1 if n not in o.l0]
    rnew = [n for n in o.r1 if n not in o.r0]
    how = rng.choice(["empty", "dangling", "link", "emptyremote"])
    if how == "emptyremote" or not new:
        if not rnew:
            return obs.count("nothing_to_occupy")
        n = rng.choice(rnew)
        w.remote.put(n, b"")
        how = "emptyremote"
    else:
        n = rng.choice(new)
        p = os.path.join(w.local, n)
        if how == "empty":
            write(p, b"")
        else:
            t = os.path.join(w.src, "target-of-link")
            if how == "link":
                write(t, b"must stay")
            os.symlink(t, p)
    what = "%s with %s at the place of %r" % (kind, how, n)
    r = w.run(*o.args)
    if not r.ok:
        raise Violation("%s failed: %s" % (what, r))
    t = os.path.join(w.src, "target-of-link")
    if how == "link" and read(t) != b"must stay" or how == "dangling" and os.path.exists(t):
        raise Violation("%s wrote through the link" % what)
    for side, now, want in (("local", w.lfiles(), o.l1), ("remote", dict(w.remote.files()), o.r1)):
        for x in want:
            if x not in now or now[x] != want[x] and zs.try_decompress(now[x]) != zs.try_decompress(want[x]):
                raise Violation("%s: %r in the %s store is not right afterwards" % (what, x, side))
        more = set(now) - set(want)
        if more:
            raise Violation("%s: there is also %s" % (what, more))
    if ops.real(w) != o.cur1:
        raise Violation("%s: `current` leads to %r" % (what, ops.real(w)))
    obs.count("occupied_names_judged")
    obs.key("occupied", kind, how, n, d["i"])
