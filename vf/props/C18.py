import ops, s3 as s3mod, trees
from world import *

LEVEL = "exploration"
RULE = ("Each case runs one command (every subcommand in several situations) or a history of ten commands, successful ones and ones that fail for many reasons (unknown "
        "versions, missing or bad sources, corrupt artefacts, S3 errors, failing system calls at random points), and compares the whole scratch "
        "world (both stores, sources, git repository, temporary, working and home directory; contents, modes, times) and the bucket before and after each; the "
        "in-process monitor reports every changing system call anywhere below /tmp, /root, /home, /var, /etc, /dev/shm. Distinct by command, outcome, "
        "remote, kind of disturbance and set of changed paths.")
ASSUMPTIONS = ["a failing removal may leave what was to be removed", "a patch file whose builds no store knows may be replaced by an add that creates this patch"]
ROOTS = "/tmp:/root:/home:/var:/etc:/dev/shm:/opt:/verif"
BAD = ["install_unknown", "create_unknown", "create_self", "add_missing", "add_empty", "pkg_missing", "auto_norepo", "auto_unknown", "add_calc_unknown", "pkg_calc_unknown", "pkg_calc_self", "bad_version",
       "corrupt_build", "corrupt_patch", "no_args", "pkg_unreadable", "add_in_store", "help", "version_flag"]


def cases(tier, rng):
    n = 20 if tier == "quick" else 400
    cs = []
    for j in range(n):
        for i, k in enumerate(ops.ALL + ["debug"]):
            cs.append(dict(mode="op", op=k, remote="s3" if (i + j) % 3 == 0 else "dir", fault=[None, "M", "R", "s3"][j % 4], i=j))
        for i, k in enumerate(BAD):
            cs.append(dict(mode="bad", op=k, remote="s3" if (i + j) % 3 == 0 else "dir", i=j))
        for i in range(6):
            cs.append(dict(mode="history", remote="s3" if (i + j) % 3 == 0 else "dir", i=j))
    return cs


def bystanders(w, rng):
    """things around that must stay as they are"""
    for d in ("cwd", "home", "tmp", "src"):
        p = os.path.join(w.root, d)
        write(os.path.join(p, "keep-" + d), rng.randbytes(20), 0o640)
        write(os.path.join(p, "1.0.tar.zst"), zs.compress(b"elsewhere"), 0o400)
        os.makedirs(os.path.join(p, "keepdir/sub"))
        write(os.path.join(p, "keepdir", "._artefacta-temp-1-1-1.part"), b"old")
        os.symlink("nowhere", os.path.join(p, "keeplink"))
    old = time.time() - 10 ** 6
    for top, ds, fs in os.walk(w.root):
        for f in fs:
            p = os.path.join(top, f)
            if not os.path.islink(p):
                os.utime(p, (old, old))


def relation(args, known):
    """which names a command may create in the local store, and which it may replace"""
    bn = lambda v: v + ".tar.zst"
    pos = [a for a in args[1:]]
    allp = {patch_name(x, y) for x in known for y in known if x != y}
    calc = args[args.index("--calc-patch-from") + 1] if "--calc-patch-from" in args else None
    if args[0] == "install":
        return {bn(v) for v in known} | allp, set()
    if args[0] in ("add", "add-package"):
        v = os.path.basename(args[1])[:-8] if args[0] == "add" else args[1]
        new = {bn(v)}
        if calc:
            new |= {bn(calc), patch_name(calc, v)}
        return new, {bn(v), patch_name(calc, v) if calc else bn(v)}
    if args[0] == "create-patch":
        a, b = args[1:3]
        return {bn(a), bn(b), patch_name(a, b)}, set()
    if args[0] == "auto-patch":
        cur = next((v for v in known if v.endswith(args[3])), args[3])
        cur = (args[args.index("--prefix") + 1] if "--prefix" in args else "") + args[3]
        return {bn(v) for v in known} | {patch_name(x, cur) for x in known}, set()
    return set(), set()


def snap(w):
    return tree(w.root), dict(w.srv.objects) if w.srv else {}


def judge(w, obs, args, r, before, after, what, relaxed=()):
    b, bo = before
    a, ao = after
    known = {os.fsdecode(os.path.basename(p))[:-8] for p in list(b) + list(a) if p.endswith(b".tar.zst")} | {k.rsplit("/", 1)[-1][:-8] for k in bo if is_build(k)}
    new, repl = relation(args, known) if args else (set(), set())
    uploads = bool(args) and (args[0] == "sync" or "--upload" in args)
    rdir = os.path.relpath(w.remote.path, w.root) if w.remote.kind == "dir" else None
    changed = []
    for k in sorted(set(b) | set(a)):
        if b.get(k) == a.get(k):
            continue
        p = os.fsdecode(k)
        d, n = os.path.split(p)
        desc = "created" if k not in b else "removed" if k not in a else "changed"
        changed.append(desc + " " + p)
        if d == "local":
            if n == "current" and args and args[0] == "install" and r.ok:
                continue
            if desc == "created" and n in new and a[k][0] == "file":
                continue
            if desc == "changed" and n in repl and a[k][0] == "file":
                continue
            if relaxed and desc == "created" and not is_artefact(n):
                continue
        if rdir and d == rdir and uploads and desc == "created" and is_artefact(n) and os.fsencode("local/" + n) in a and a[k][3] == a[os.fsencode("local/" + n)][3]:
            continue
        if rdir and d == rdir and uploads and relaxed and desc == "created" and not is_artefact(n):
            continue
        if relaxed and desc == "created" and p.startswith("tmp/") and args[0] == "add-package":
            continue
        raise Violation("%s: %s %r (%s)" % (what, desc, p, r))
    for k in set(bo) | set(ao):
        if bo.get(k) != ao.get(k):
            changed.append("object " + k)
            n = k.rsplit("/", 1)[-1]
            if uploads and k not in bo and k == w.remote.key(n) and is_artefact(n) and os.fsencode("local/" + n) in a:
                continue
            raise Violation("%s: the object %r %s" % (what, k, "appeared" if k not in bo else "vanished" if k not in ao else "was changed"))
    for q in r.requests:
        if q["kind"] not in ("LIST", "GET", "HEAD") and not (q["kind"] == "PUT" and uploads):
            raise Violation("%s: sent %s %r" % (what, q["kind"], q["key"]))
        if q["kind"] == "PUT" and q["key"] in bo:
            raise Violation("%s: uploaded the existing %r again" % (what, q["key"]))
    n = 0
    for e in r.events:
        if e.cls != "M":
            continue
        n += 1
        for p in (e.path, e.path2):
            if not p or (e.op == "symlink" and p == e.path and e.path2):
                continue
            if in_(p, w.local) or (in_(p, w.tmp) and args and args[0] == "add-package") or (rdir and uploads and in_(p, w.remote.path)):
                if in_(p, w.tmp) and "keep" in p:
                    raise Violation("%s: %r" % (what, e))
                continue
            raise Violation("%s: system call on a place it has no business with: %r" % (what, e))
    if args and args[0] in ("debug",) and n:
        raise Violation("%s: changed something: %s" % (what, [e for e in r.events if e.cls == "M"][:3]))
    obs.count("changing_calls_judged", n)
    obs.count("paths_compared", len(b))
    obs.count("commands_judged")
    obs.count("failed_commands" if not r.ok else "successful_commands")
    return changed


def in_(p, d):
    return p == d or p.startswith(d + "/")


def run(d, w, obs):
    rng = w.rng
    if d["mode"] == "history":
        return history(d, w, obs)
    if d["mode"] == "bad":
        return bad(d, w, obs)
    k = d["op"]
    o = ops.make(w, rng, k if k != "debug" else "sync_some", d["remote"])
    if k == "debug":
        o.args = ["debug"]
    bystanders(w, rng)
    old = time.time() - 10 ** 6
    for top in (w.local, w.src) + ((w.remote.path,) if w.remote.kind == "dir" else ()):
        for t, ds, fs in os.walk(top):
            for f in fs:
                if not os.path.islink(os.path.join(t, f)):
                    os.utime(os.path.join(t, f), (old, old))
    tries = 1 if not d["fault"] else 5
    saved = w.save()
    for i in range(tries):
        shim, f = dict(roots=ROOTS), ""
        if d["fault"] in ("M", "R"):
            where = rng.choice([w.local + "/", w.src + "/"] + ([w.remote.path + "/"] if w.remote.kind == "dir" else []) + ([w.tmp + "/"] if d["fault"] == "M" else []))
            shim.update(fail="%d:%d" % (rng.randint(1, 12), rng.choice([5, 28, 13])), fclass=d["fault"], fmatch=where)
        elif d["fault"] == "s3" and w.srv:
            nth, cnt = rng.randint(2, 5), [0]

            def hook(rec):
                cnt[0] += 1
                return s3mod.s3error(rng.choice([500, 403, 404]), "X") if cnt[0] >= nth else None
            w.srv.hook = hook
        before = snap(w)
        r = w.run(*o.args, shim=shim, umask=rng.choice([-1, 0o77, 0]))
        fs = [e.op for e in r.events if e.cls == "F"]
        what = "%s (%s)%s" % (k, d["remote"], " with a failing %s" % fs[0] if fs else "")
        if not d["fault"] and not r.ok:
            raise Violation("%s failed: %s" % (what, r))
        ch = judge(w, obs, o.args, r, before, snap(w), what, [x for x in fs if x in ("unlink", "rmdir")])
        if w.srv:
            w.srv.hook = None
        w.restore(saved)
        obs.key(k, d["remote"], d["fault"], fs, r.ok, i, [c for c in ch if "part" not in c])
    obs.sample = dict(op=k, remote=d["remote"], fault=d["fault"], ok=r.ok, changed=ch[:6])


def bad(d, w, obs):
    rng = w.rng
    o = ops.make(w, rng, rng.choice(["install_chain", "create", "sync_some"]), d["remote"])
    vs = list(o.truth)
    t = os.path.join(w.src, "tree")
    os.mkdir(t)
    write(os.path.join(t, "a"), content(rng))
    f = os.path.join(w.src, "new-1.tar.zst")
    write(f, zs.compress(b"new"))
    k = d["op"]
    shim = dict(roots=ROOTS)
    args = dict(install_unknown=["install", "nope"], create_unknown=["create-patch", vs[0], "nope"], create_self=["create-patch", vs[0], vs[0]], add_missing=["add", f + "x.tar.zst", "--upload"],
                add_empty=["add", os.path.join(w.src, "e.tar.zst"), "--upload"], pkg_missing=["add-package", "p", t + "x"], auto_norepo=["auto-patch", "--repo-root", t, vs[-1]],
                auto_unknown=["auto-patch", "--repo-root", t, "nope"], add_calc_unknown=["add", f, "--calc-patch-from", "nope", "--upload"], pkg_calc_unknown=["add-package", "p", t, "--calc-patch-from", "nope"],
                pkg_calc_self=["add-package", "p", t, "--calc-patch-from", "p"], bad_version=["add-package", "a---b", t, "--upload"], corrupt_build=["create-patch", vs[0], vs[-1]],
                corrupt_patch=["install", vs[-1]], no_args=[], pkg_unreadable=["add-package", "p", t, "--upload"], add_in_store=["add", os.path.join(w.local, "inside.tar.zst")], help=["--help"], version_flag=["--version"])[k]
    if k == "add_empty":
        write(args[1], b"")
    elif k == "corrupt_build":
        for n in (vs[0], vs[-1]):
            n += ".tar.zst"
            if n in w.lfiles():
                w.put_local(n, w.lfiles()[n][:-5])
            w.remote.put(n, rng.randbytes(200))
    elif k == "corrupt_patch":
        for n in list(w.remote.files()):
            if is_patch(n):
                w.remote.put(n, rng.choice([rng.randbytes(40), zs.compress(rng.randbytes(40)), w.remote.files()[n][:-7]]))
    elif k == "pkg_unreadable":
        shim.update(fail="1:13:s", fclass="R", fmatch=os.path.join(t, "a"))
    elif k == "add_in_store":
        w.put_local("inside.tar.zst", zs.compress(b"i"))
    bystanders(w, rng)
    before = snap(w)
    r = w.run(*args, shim=shim)
    what = "%s (%s)" % (k, d["remote"])
    if r.ok and k not in ("corrupt_patch", "corrupt_build", "help", "version_flag"):
        raise Violation("%s succeeded: %s" % (what, r))
    ch = judge(w, obs, args, r, before, snap(w), what)
    obs.key("bad", k, d["remote"], ch)
    obs.sample = dict(op=k, remote=d["remote"], status=r.rc, changed=ch[:6])


def history(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    vs = names(rng, 6)
    c, truth = content(rng, 2000), {}
    for v in vs:
        c = mutate(rng, c)
        truth[v] = c
    for v in vs[:3]:
        w.remote.put(v + ".tar.zst", zs.compress(truth[v]) + zs.skippable(5000))
    w.put_local(vs[0] + ".tar.zst", zs.compress(truth[vs[0]]))
    if rng.random() < .3:       # large stores
        for i in range(rng.randint(8, 60)):
            b = zs.compress(b"bulk %d" % i)
            if rng.random() < .8:
                w.put_local("bulk%d.tar.zst" % i, b)
            if rng.random() < .5:
                w.remote.put("bulk%d.tar.zst" % i, b)
    w.remote.put(patch_name(vs[0], vs[1]), zs.compress(bpatch.encode(truth[vs[0]], truth[vs[1]], rng)))
    trees_ = []
    for i in range(2):
        t = os.path.join(w.src, "tree%d" % i)
        trees.make(t, trees.gen(rng, nonutf8=False, maxfiles=5))
        trees_.append(t)
    repo = os.path.join(w.src, "repo")
    os.mkdir(repo)
    ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"], ["tag", "1"], ["tag", "9"], ["tag", "v1.2.3"])
    fs = []
    for v in vs:
        f = os.path.join(w.src, v + ".tar.zst")
        write(f, zs.compress(truth[v]) + zs.skippable(rng.randint(8, 40)), rng.choice([0o644, 0o400]))
        fs.append(f)
    bystanders(w, rng)
    pv = "pkg-1"
    what = []
    for step in range(10):
        args = rng.choice([lambda: ["install", rng.choice(vs)], lambda: ["install", rng.choice(vs[:3])], lambda: ["add", rng.choice(fs)] + rng.choice([[], ["--upload"], ["--calc-patch-from", rng.choice(vs)]]),
                           lambda: ["add-package", rng.choice([pv, vs[4]]), rng.choice(trees_)] + rng.choice([[], ["--upload"], ["--calc-patch-from", rng.choice(vs)], ["--calc-patch-from", rng.choice(vs), "--upload"]]),
                           lambda: ["create-patch", *rng.sample(vs, 2)], lambda: ["auto-patch", "--repo-root", repo, rng.choice(vs + ["10", "2"])], lambda: ["sync"], lambda: ["debug"],
                           lambda: ["add", fs[0] + "gone"]])()
        before = snap(w)
        what.append(" ".join(os.path.basename(a) for a in args))
        r = w.run(*args, shim=dict(roots=ROOTS))
        ch = judge(w, obs, args, r, before, snap(w), "history %s" % what)
        obs.key("history", args[0], d["remote"], r.ok, ch)
    obs.sample = dict(history=what, remote=d["remote"])
