import graphs, s3 as s3mod
from world import *

LEVEL = "exploration"
RULE = ("Each case prepares a random version graph and one earlier state of `current` (absent, valid, relative, dangling, to the target's missing "
        "build, to an empty or foreign file, unparsable, via a symlinked store, a plain file or directory) and runs commands: installs that succeed, installs "
        "made to fail (unknown version, vanished or corrupt remote file, failing system calls at enumerated points), and every other "
        "command. A monitor inside the process logs the state of `current` before every file-system event; judged are all logged states "
        "and the final one. Distinct by earlier state, command, outcome, remote kind and the number of states seen.")
ASSUMPTIONS = ["between two file-system events of a single process `current` cannot change, so looking at every event is looking at every moment"]

STATES = ["absent", "valid", "valid", "relative", "dangling", "dangling_target", "dangling_rel", "empty_target", "foreign", "unparsable", "other_dir", "plain", "dir",
          "chain", "unknown", "dirlink"]
OTHER = ["add", "add_current", "add_fail", "package", "package_current", "create", "create_same", "auto", "sync", "debug", "upload"]


def cases(tier, rng):
    n = 70 if tier == "quick" else 300
    cs = [dict(mode="install", state=s, remote="s3" if j % 5 == 4 else "dir", spell=j % 4, i=j) for j in range(n) for s in STATES]
    cs += [dict(mode="fail", state=s, remote="s3" if j % 5 == 4 else "dir", how=h, spell=0, i=j) for j in range(max(2, n // 6)) for s in STATES
           for h in ("unknown", "gone", "corrupt", "faults")]
    cs += [dict(mode="other", state=s, remote="s3" if (j + i) % 5 == 4 else "dir", cmd=c, spell=0, i=j) for j in range(max(1, n // 10)) for i, s in
           enumerate(["valid", "relative", "dangling", "absent", "chain"]) for c in OTHER]
    return cs


def prepare(d, w, rng):
    w.use(d["remote"])
    g = graphs.gen(rng, k=rng.randint(2, 5))
    cur = g["vs"][0]
    graphs.place(rng, g, w, cur)
    target = rng.choice(g["vs"][1:])
    link = os.path.join(w.local, "current")
    st = d["state"]
    cf, tf = cur + ".tar.zst", target + ".tar.zst"
    installed = None

    def drop(n):
        p = os.path.join(w.local, n)
        if os.path.exists(p):
            os.unlink(p)
        if n not in w.remote.files():
            w.remote.put(n, g["files"][n])
    if st == "valid":
        os.symlink(os.path.join(w.local, cf), link)
        installed = cur
    elif st == "relative":
        os.symlink(cf, link)
        installed = cur
    elif st == "chain":   # a link to a link to the build
        os.symlink(os.path.join(w.local, cf), os.path.join(w.local, "hop"))
        os.symlink("hop", link)
        installed = cur
    elif st == "dangling":
        drop(cf)
        os.symlink(os.path.join(w.local, cf), link)
    elif st == "dangling_rel":
        drop(cf)
        os.symlink(cf, link)
    elif st == "dangling_target":
        drop(tf)
        os.symlink(os.path.join(w.local, tf), link)
    elif st == "empty_target":
        drop(tf)
        w.put_local(tf, b"")
        os.symlink(os.path.join(w.local, tf), link)
    elif st == "foreign":
        os.symlink("/dev/null", link)
    elif st == "unparsable":
        os.symlink("a---b---c.tar.zst", link)
    elif st == "unknown":
        os.symlink(os.path.join(w.local, "never-heard-of.tar.zst"), link)
        write(os.path.join(w.src, "x"), b"x")
    elif st == "other_dir":
        o = os.path.join(w.root, "elsewhere")
        os.mkdir(o)
        write(os.path.join(o, rng.choice([tf, cf])), b"something else")
        os.symlink(os.path.join(o, os.listdir(o)[0]), link)
    elif st == "dirlink":
        o = os.path.join(w.root, "elsewhere", rng.choice([tf, cf, "x"]))
        os.makedirs(o)
        write(os.path.join(o, "f"), b"1")
        os.symlink(rng.choice([o, os.path.join("..", os.path.relpath(o, w.root)), "."]), link)
    elif st == "plain":
        write(link, b"plain file")
    elif st == "dir":
        os.mkdir(link)
        write(os.path.join(link, "f"), b"1")
    return g, cur, target, link, installed


def spelled(w, k):
    if k == 1:
        return w.local + "/"
    if k == 2:
        os.symlink("local", os.path.join(w.root, "lnk"))
        return os.path.join(w.root, "lnk")
    if k == 3:
        return "../local"
    return w.local


def state(link):
    try:
        st = os.lstat(link)
    except FileNotFoundError:
        return None
    if os.path.islink(link):
        return ("link", os.readlink(link), st.st_ino, st.st_mtime_ns)
    if os.path.isdir(link):
        return ("dir", tuple(sorted(os.listdir(link))), st.st_ino)
    return ("file", read(link), st.st_ino, st.st_mtime_ns)


def check_watch(w, r, link, allowed, what, obs):
    """every state of `current` the monitor saw"""
    n = 0
    for e in r.events:
        if e.cls == "W":
            n += 1
            if e.n == -2:
                raise Violation("%s: `current` disappeared while the command ran" % what)
            p = os.path.realpath(os.path.join(os.path.dirname(link), e.path))
            if p not in allowed:
                raise Violation("%s: `current` led to %r while the command ran" % (what, e.path))
            if e.n != allowed[p]:
                raise Violation("%s: `current` led to %r of %d instead of %d bytes while the command ran" % (what, e.path, e.n, allowed[p]))
    if n == 0:
        raise Inconclusive("the monitor did not see `current`")
    obs.count("states_of_current", n)
    return n


def run(d, w, obs):
    rng = w.rng
    g, cur, target, link, installed = prepare(d, w, rng)
    mode = d["mode"]
    what = "%s with `current` %s" % (mode if mode != "other" else d["cmd"], d["state"])
    before = state(link)
    if mode == "install":
        loc = spelled(w, d["spell"])
        seq = [target] + rng.sample(g["vs"], min(2, len(g["vs"])))
        for i, v in enumerate(seq):
            oldt = os.path.realpath(link) if installed else None
            oldsize = os.path.getsize(oldt) if oldt else None
            r = w.run("install", v, local=loc, shim=dict(watch=link))
            if d["state"] == "dir" or (not r.ok and d["state"] == "plain"):
                if r.ok and not os.path.islink(link):
                    raise Violation("%s: success, but `current` is no link" % what)
                if not r.ok and state(link) != before:
                    raise Violation("%s: failed, but `current` changed" % what)
                if w.stray():
                    raise Violation("%s left %s" % (what, w.stray()))
                obs.key(mode, d["state"], r.ok)
                return
            if not r.ok:
                raise Violation("%s: install of %r failed: %s" % (what, v, r))
            w.check_current(v, what=what)
            c = zs.try_decompress(read(link))
            if c != g["truth"][v]:
                raise Violation("%s: `current` leads to wrong content after installing %r" % (what, v))
            n = 0
            if oldt:
                allowed = {oldt: oldsize}
                new = os.path.realpath(link)
                allowed[new] = os.path.getsize(new)
                n = check_watch(w, r, link, allowed, what, obs)
            # the link must not depend on where the command ran
            obs.count("installs_judged")
            obs.key(mode, d["state"], i, d["remote"], d["spell"], n)
            installed = v
            if [x for x in w.stray() if x != "hop"]:
                raise Violation("%s left %s" % (what, w.stray()))
        # again: nothing changes
        st = state(link)
        w.ok("install", installed, local=loc)
        if os.path.realpath(link) != os.path.realpath(os.path.join(w.local, installed + ".tar.zst")):
            raise Violation("repeated install changed `current`")
    elif mode == "fail":
        fail(d, w, obs, g, cur, target, link, installed, what)
    else:
        other(d, w, obs, g, cur, target, link, installed, what)
    obs.sample = dict(mode=mode, state=d["state"], cmd=d.get("cmd"), how=d.get("how"), remote=d["remote"], current=str(state(link)))


def fail(d, w, obs, g, cur, target, link, installed, what):
    rng = w.rng
    before = state(link)
    how = d["how"]

    def judge(r, sub):
        obs.count("failed_installs" if not r.ok else "installs_that_succeeded")
        if r.ok:
            if how == "unknown":
                raise Violation("%s: install of an unknown version succeeded" % what)
            w.check_current(target, what=what)
            if zs.try_decompress(read(link)) != g["truth"][target]:
                raise Violation("%s %s: `current` leads to wrong content" % (what, sub))
        elif state(link) != before:
            raise Violation("%s: install failed (%s) but `current` changed from %r to %r" % (what, sub, before, state(link)))
        if installed:
            allowed = {os.path.realpath(os.path.join(w.local, cur + ".tar.zst")): len(w.lfiles()[cur + ".tar.zst"])}
            t = os.path.join(w.local, target + ".tar.zst")
            if r.ok and os.path.exists(t):
                allowed[t] = os.path.getsize(t)
            check_watch(w, r, link, allowed, what, obs)
        obs.key("fail", d["state"], how, sub, r.ok, d["remote"])

    if how == "unknown":
        judge(w.run("install", "no-such-version", shim=dict(watch=link)), "")
        return
    tf = target + ".tar.zst"
    p = os.path.join(w.local, tf)
    if d["state"] not in ("dangling_target", "empty_target", "other_dir"):
        if os.path.exists(p):
            os.unlink(p)
    if tf not in w.remote.files():
        w.remote.put(tf, g["files"][tf])
    if how == "gone":
        if w.srv:
            w.srv.hook = lambda rec: s3mod.s3error(rng.choice([404, 500, 503]), "X") if rec["kind"] == "GET" else None
            judge(w.run("install", target, shim=dict(watch=link)), "s3")
        else:
            for e in (2, 5, 13):
                saved = w.save()
                judge(w.run("install", target, shim=dict(watch=link, fail="1:%d:s" % e, fclass="R", fmatch=w.remote.path + "/")), str(e))
                w.restore(saved)
                before = state(link)
        return
    if how == "corrupt":
        if w.srv:
            w.srv.hook = lambda rec: s3mod.Answer(200, b"not the object", {"ETag": s3mod.etag(b"?")}) if rec["kind"] == "GET" else None
            judge(w.run("install", target, shim=dict(watch=link)), "s3")
        else:
            judge(w.run("install", target, shim=dict(watch=link, fail="2:5:s", fclass="R", fmatch=w.remote.path + "/")), "read")
        return
    # every mutating call fails in turn, then all from there on
    saved = w.save()
    n = 1
    while n < 60:
        for sticky in ("", ":s"):
            w.restore(saved)
            before = state(link)
            r = w.run("install", target, shim=dict(watch=link, fail="%d:%d%s" % (n, rng.choice([5, 28, 13, 30]), sticky), fclass="M"))
            hit = [e for e in r.events if e.cls == "F"]
            if not hit:
                return
            judge(r, hit[0].op + sticky)
        n += 1


def other(d, w, obs, g, cur, target, link, installed, what):
    rng = w.rng
    vs = g["vs"]
    cmd = d["cmd"]
    before = state(link)
    data = zs.compress(content(rng))
    for n in g["files"]:
        if is_build(n) and n not in w.remote.files():
            w.remote.put(n, g["files"][n])
    f = os.path.join(w.src, "new-1.tar.zst")
    write(f, data)
    fc = os.path.join(w.src, cur + ".tar.zst")
    write(fc, zs.compress(g["truth"][cur]) + zs.skippable(77))
    tree_ = os.path.join(w.src, "t")
    os.mkdir(tree_)
    write(os.path.join(tree_, "a"), b"a")
    if cmd == "auto":
        r = subprocess.run("git init -q . && git -c user.name=a -c user.email=a@b commit -q --allow-empty -m x && git tag 1.0.0 && git tag 1.0.1",
                           shell=True, cwd=tree_, env=w.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Inconclusive("git: %r" % r.stdout)
        w.remote.put("1.0.0.tar.zst", zs.compress(b"one"))
        w.put_local("1.0.1.tar.zst", zs.compress(b"two"))
        args = ["auto-patch", "--repo-root", tree_, "1.0.1"]
    else:
        args = dict(add=["add", f], add_current=["add", fc], add_fail=["add", f + "x"], upload=["add", f, "--upload", "--calc-patch-from", target],
                    package=["add-package", "pkg-1", tree_], package_current=["add-package", cur, tree_],
                    create=["create-patch", vs[0], target], create_same=["create-patch", cur, cur], sync=["sync"], debug=["debug"])[cmd]
    oldsize = os.path.getsize(link) if installed else None
    r = w.run(*args, shim=dict(watch=link))
    if state(link) != before:
        raise Violation("%s changed `current` from %r to %r (%s)" % (what, before, state(link), r))
    ws = [e for e in r.events if e.cls == "W"]
    if not ws:
        raise Inconclusive("the monitor did not see `current`")
    if before is None or before[0] == "link":
        whole = {oldsize, os.path.getsize(link) if installed and os.path.exists(link) else None}
        for e in ws:
            if installed and e.n not in whole:
                raise Violation("%s: `current` led to %d instead of %s bytes while the command ran" % (what, e.n, sorted(x for x in whole if x)))
            t = None if e.n == -2 else e.path
            if t != (before[1] if before else None):
                raise Violation("%s: `current` became %r while the command ran" % (what, t))
    want_ok = cmd not in ("add_fail", "create_same")
    if r.ok != want_ok:
        raise Violation("%s: unexpected outcome: %s" % (what, r))
    obs.count("other_commands_judged")
    obs.count("states_of_current", len(ws))
    obs.key("other", d["state"], cmd, d["remote"], len(ws))
