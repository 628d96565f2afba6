"""Ready-made commands with the stores they need, shared by the properties about
crashes, faults, concurrency and non-interference."""
import graphs
from world import *

INSTALL = ["install_fresh", "install_direct", "install_chain", "install_chain", "install_local", "install_same", "install_dangling"]
ADD = ["add_new", "add_replace", "add_calc", "add_upload", "add_calc_upload", "pkg_new", "pkg_replace", "pkg_calc_upload", "pkg_file"]
PATCH = ["create", "create_fetch", "create_exists", "auto", "auto_prefix"]
SYNC = ["sync_many", "sync_none", "sync_some"]
ALL = INSTALL + ADD + PATCH + SYNC


class Op:
    """args: the command; truth: version -> content in the end; alt: version -> content
    that a replaced build had before; cur/target: what `current` leads to before/after;
    local_new/remote_new: names that appear."""
    def __init__(self, kind):
        self.kind = kind
        self.args, self.truth, self.alt = [], {}, {}
        self.cur = self.target = None
        self.uploads = False


def git(w, d, *cmds):
    for c in cmds:
        r = subprocess.run(["git", "-c", "user.name=a", "-c", "user.email=a@b", "-c", "init.defaultBranch=m"] + list(c), cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(PATH="/usr/bin:/bin", HOME=os.path.join(w.root, "home"), GIT_CONFIG_NOSYSTEM="1",
                                                              GIT_AUTHOR_DATE="1600000000 +0000", GIT_COMMITTER_DATE="1600000000 +0000"))
        if r.returncode:
            raise Inconclusive("git %r: %r" % (c, r.stdout))


def bcontent(rng, big=False):
    if big == "noise":       # several output buffers even after compression
        return rng.randbytes(rng.choice([20000, 60000, 150000, 300000]))
    return content(rng, rng.choice([90000, 150000]) if big else rng.choice([5, 30, 900, 5000, 20000]))


def source_tree(w, rng, big=False):
    t = os.path.join(w.src, "tree")
    os.makedirs(os.path.join(t, "sub/deep"))
    for i, n in enumerate(["a", "sub/b", "sub/deep/c", "z"][:rng.randint(1, 4)]):
        write(os.path.join(t, n), content(rng, rng.choice([1, 500, 9000]) if not big else 150000), rng.choice([0o644, 0o755, 0o600]))
    return t


def make(w, rng, kind, remote="dir", big=False):
    """sets up w (fresh) for one command of the given kind"""
    o = Op(kind)
    if w.remote is None:
        w.use(remote)
    vs = names(rng, rng.randint(3, 5))
    c = bcontent(rng, big)
    for v in vs:
        c = mutate(rng, c)
        while c in o.truth.values():
            c = mutate(rng, c)
        o.truth[v] = c
    o.vs = vs
    B = {v: zs.pack(o.truth[v], rng) for v in vs}
    o.bytes = B
    bn = lambda v: v + ".tar.zst"
    enc = lambda a, b: zs.pack(bpatch.encode(o.truth[a], o.truth[b], rng, rng.randint(1, 4)), rng)

    def put(where, v, pad=0):
        d = B[v] + (zs.skippable(pad) if pad else b"")
        if where == "l":
            w.put_local(bn(v), d)
        else:
            w.remote.put(bn(v), d)

    def link(v):
        o.cur = v
        os.symlink(os.path.join(w.local, bn(v)), os.path.join(w.local, "current"))

    if kind.startswith("install"):
        o.target = vs[-1]
        o.args = ["install", o.target]
        for v in vs:
            put("r", v, 200000 if big else 30000)
        if kind != "install_fresh":
            put("l", vs[0], 100)
            link(vs[0])
        if kind == "install_chain":
            for a, b in zip(vs, vs[1:]):
                x = enc(a, b)
                w.remote.put(patch_name(a, b), x)
                if rng.random() < .25:
                    w.put_local(patch_name(a, b), x)
            if rng.random() < .25:
                put("l", vs[1])
        elif kind == "install_local":
            put("l", vs[-1], 30000)
        elif kind == "install_same":
            o.target = vs[0]
            o.args = ["install", vs[0]]
        elif kind == "install_dangling":
            os.unlink(os.path.join(w.local, bn(vs[0])))
            o.cur = None
    elif kind.startswith(("add", "pkg")):
        old = [v for v in vs[:-1]]
        for v in old:
            if rng.random() < .7:
                put("r", v)
            if rng.random() < .5 or bn(v) not in w.remote.files():
                put("l", v)
        if bn(vs[0]) in w.lfiles() and rng.random() < .6:
            link(vs[0])
        new = vs[-1]
        o.target = o.cur
        if "replace" in kind:
            new = old[0]
            if bn(new) not in w.lfiles():
                put("l", new)
            o.alt[new] = o.truth[new]
            o.truth = {v: x for v, x in o.truth.items() if v != vs[-1]}
        o.new = new
        if kind.startswith("add"):
            if new in o.alt:
                o.truth[new] = mutate(rng, o.alt[new])
                while o.truth[new] in [o.alt[new]] + [x for v, x in o.truth.items() if v != new]:
                    o.truth[new] = mutate(rng, o.truth[new])
            f = os.path.join(w.src, bn(new))
            o.newbytes = zs.pack(o.truth[new], rng)
            write(f, o.newbytes)
            o.args = ["add", f]
        else:
            if kind == "pkg_file":
                f = os.path.join(w.src, "bin")
                write(f, bcontent(rng, big))
            else:
                f = source_tree(w, rng, big)
            o.truth[new] = None      # learnt from an undisturbed run
            o.args = ["add-package", new, f]
        if "upload" in kind:
            o.args.append("--upload")
            o.uploads = True
        if "calc" in kind:
            o.args += ["--calc-patch-from", old[0]]
    elif kind.startswith("create"):
        a, b = vs[0], vs[1]
        for v in vs:
            put("r", v)
        if kind == "create" or rng.random() < .5:
            put("l", a)
        if kind == "create":
            put("l", b)
        if kind == "create_exists":
            (w.put_local if rng.random() < .5 else w.remote.put)(patch_name(a, b), enc(a, b))
        if bn(a) in w.lfiles():
            link(a)
            o.target = a
        o.args = ["create-patch", a, b]
    elif kind.startswith("auto"):
        pre = "app-" if kind == "auto_prefix" else ""
        tags = ["1.2.8", "1.2.9", "1.1.7", "0.9.3", "1.2.10"]
        o.truth = {pre + t: x for t, x in zip(tags, _family(rng, bcontent(rng, big), 5))}
        o.vs = list(o.truth)
        for v, x in o.truth.items():
            B[v] = zs.pack(x, rng)
            put("r", v)
            if rng.random() < .4:
                put("l", v)
        repo = os.path.join(w.src, "repo")
        os.mkdir(repo)
        git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"], *[["tag", t] for t in tags])
        o.args = ["auto-patch", "--repo-root", repo, "1.2.10"] + (["--prefix", pre] if pre else [])
    elif kind.startswith("sync"):
        o.uploads = True
        for i, v in enumerate(vs):
            put("l", v)
            if kind == "sync_none" or (kind == "sync_some" and i % 2):
                put("r", v)
        for a, b in list(zip(vs, vs[1:]))[:2]:
            x = enc(a, b)
            w.put_local(patch_name(a, b), x)
            if kind == "sync_none":
                w.remote.put(patch_name(a, b), x)
        link(vs[0])
        o.target = vs[0]
        o.args = ["sync"]
    else:
        raise AssertionError(kind)
    o.l0, o.r0 = w.lfiles(), dict(w.remote.files())
    r2 = random.Random("modes %s" % w.desc.get("seed"))
    for top in [w.local, w.src] + ([w.remote.path] if w.remote.kind == "dir" else []):
        for n in sorted(os.listdir(top)):
            p = os.path.join(top, n)
            if n.endswith(".zst") and os.path.isfile(p) and not os.path.islink(p) and r2.random() < .5:
                os.chmod(p, r2.choice([0o600, 0o640, 0o444, 0o755]))
    return o


def _family(rng, c, k):
    out = []
    while len(out) < k:
        c = mutate(rng, c)
        if c not in out:
            out.append(c)
    return out


def reference(w, o, obs):
    """runs the command undisturbed from the present state, notes the state it reaches
    and puts everything back"""
    saved = w.save()
    o.saved = saved
    o.cur0 = real(w)
    r = w.ok(*o.args)
    o.ref = r
    o.l1 = {n: b for n, b in w.lfiles().items() if is_artefact(n)}
    o.r1 = {n: b for n, b in w.remote.files().items() if is_artefact(n)}
    o.cur1 = real(w)
    o.m1 = modes(w)
    new = getattr(o, "new", None)
    if new and o.truth.get(new) is None:
        o.truth[new] = zs.decompress(o.l1[new + ".tar.zst"])
    verify(w, o, "after an undisturbed %s" % o.kind, final=True)
    w.restore(saved)
    return r


def modes(w):
    """permissions of the builds that are copies of files with unusual permissions (a patch that cannot be fetched may be made anew)"""
    out = {}
    for side, top in (("local", w.local), ("remote", w.remote.path if w.remote.kind == "dir" else None)):
        for n in os.listdir(top) if top else ():
            st = os.lstat(os.path.join(top, n))
            if is_build(n) and stat.S_ISREG(st.st_mode) and st.st_mode & 0o7777 != 0o644:
                out[side, n] = st.st_mode & 0o7777
    return out


def real(w):
    """where `current` leads"""
    t = w.current()
    return None if t is None else os.path.realpath(os.path.join(w.local, t))


def verify(w, o, what, final=False, equivalent=False):
    """the consistency that must hold at any time (and, if final, the reference state);
    equivalent: artefacts may have been replaced by others of exactly the same content"""
    for side, now, before in (("local", w.lfiles(), o.l0), ("remote", dict(w.remote.files()), o.r0)):
        where = "%s: %s store" % (what, side)
        arts = {n: b for n, b in now.items() if is_artefact(n)}
        old = set()
        for n, b in before.items():
            if n not in now:
                raise Violation("%s: %r has disappeared" % (where, n))
            if now[n] != b:
                v = n[:-len(".tar.zst")]
                if side == "local" and is_build(n) and v in o.alt:
                    continue     # replaced: must then be the complete new one
                if equivalent and is_artefact(n):
                    continue     # the same content, fetched once more
                raise Violation("%s: %r has been changed" % (where, n))
            old.add(n)
        fresh = {n: b for n, b in arts.items() if n not in old}
        w.check_artefacts(fresh, o.truth, where)
        ref = o.l1 if side == "local" else o.r1
        for n, b in fresh.items():
            if n not in ref:
                raise Violation("%s: %r does not belong there" % (where, n))
        if final:
            for n in ref:
                if n not in arts:
                    raise Violation("%s: %r is missing" % (where, n))
                if is_build(n) and zs.try_decompress(arts[n]) != zs.try_decompress(ref[n]):
                    raise Violation("%s: %r has the wrong content" % (where, n))
    if final and not equivalent:
        m = modes(w)
        for (side, n), x in o.m1.items():
            if m.get((side, n)) != x:
                raise Violation("%s: %s store: %r has permissions %o instead of %o" % (what, side, n, m.get((side, n), 0o644), x))
    now = real(w)
    if final and now != o.cur1:
        raise Violation("%s: `current` leads to %r instead of %r" % (what, now, o.cur1))
    if not final and now not in (o.cur1, o.cur0):
        raise Violation("%s: `current` leads to %r instead of %r or %r" % (what, now, o.cur0, o.cur1))
    if now is not None and now != o.cur0 and not os.path.isfile(now):
        raise Violation("%s: `current` leads to nothing (%r)" % (what, now))
