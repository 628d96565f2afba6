import ops
from world import *

LEVEL = "fault_enumeration"
RULE = ("Each case prepares stores and one command (every subcommand, several situations), lists the file-system calls of an undisturbed run "
        "(opening, reading, writing, renaming, removing, linking, directories, metadata) below the scratch root and lets every one of them fail "
        "in turn, once or from then on (for writes, also only all further writing, as on a full disk), with EIO, ENOSPC, EACCES, EROFS, EDQUOT, EMFILE or EINTR, and every write fail half-way; other runs get random short reads and writes. Judged are the "
        "exit status, both stores and `current` after the fault, and after a repetition without fault. Distinct by command, remote, failing "
        "call, its position and kind of failure.")
ASSUMPTIONS = ["a call reported as failed has had no effect, except writes that are cut short", "errors inside the git repository are libgit2's business", "a failing removal may leave the temporary file that was to be removed"]
CODES = dict(M=[28, 5, 30, 122], R=[5, 13, 24], S=[5, 13])


def cases(tier, rng):
    n = 2 if tier == "quick" else 24
    cs = []
    for j in range(n):
        for cls in "MRS":
            for k in sorted(set(ops.ALL)):
                cs.append(dict(op=k, remote="s3" if (j + len(cs)) % 4 == 3 else "dir", big=j % 3 == 2, i=j, cls=cls))
        for k in ops.ALL:
            cs.append(dict(op=k, remote="s3" if (j + len(cs)) % 4 == 3 else "dir", big=j % 2 == 1, i=j, cls="short"))
        for k in ["install_chain", "install_chain", "create", "pkg_new", "add_new"]:
            cs.append(dict(op=k, remote="dir", big="noise", i=j, cls="M"))
    return cs


def run(d, w, obs):
    rng = w.rng
    o = ops.make(w, rng, d["op"], d["remote"], d["big"])
    ops.reference(w, o, obs)
    o.final = d["op"].startswith("install")
    if d["cls"] == "short":
        for i in range(6):
            r = w.run(*o.args, shim=dict(short=rng.randrange(10 ** 6)))
            what = "%s with short transfers" % d["op"]
            if not r.ok:
                raise Violation("%s failed: %s" % (what, r))
            judge(w, o, obs, r, what, rng)
            obs.key(d["op"], d["remote"], "short", d["i"], i)
        return
    r = w.run(*o.args, shim=dict(stat=1))
    evs = [e for e in r.events if e.cls == d["cls"]]
    w.restore(o.saved)
    # libgit2 takes a directory of tags it cannot read for an empty one: not claimed
    repo = os.path.join(w.src, "repo")
    points = [(i, sticky, e) for i, e in enumerate(evs, 1) for sticky in ("", ":s") if not e.path.startswith(repo)]
    if any(e.path.startswith(repo) for e in evs):   # "from then on" would reach the repository
        points = [p for p in points if not p[1]]
    if len(points) > 56:
        # rare kinds of calls first
        kinds = {}
        for p in points:
            kinds.setdefault((p[2].op, p[1]), []).append(p)
        points = []
        while len(points) < 56:
            for k in list(kinds):
                if kinds[k]:
                    points.append(kinds[k].pop(rng.randrange(len(kinds[k]))))
    hits = 0
    for i, sticky, e in points:
        code = rng.choice(CODES[d["cls"]])
        if d["cls"] == "R" and e.op == "read" and not sticky and rng.random() < .3:
            code = errno.EINTR
        if d["cls"] == "M" and e.op == "write" and not sticky and rng.random() < .2:
            code = errno.EINTR
        what = "%s with %s(%s) #%d failing%s (%s)" % (d["op"], e.op, os.path.basename(e.path2 or e.path), i, " from there on" if sticky else "",
                                                       errno.errorcode[code])
        shim = dict(fail="%d:%d%s" % (i, code, sticky), fclass=d["cls"])
        if sticky and e.op == "write" and rng.random() < .6:      # the disk is full: only writing fails
            shim.update(fail="%d:%d:s" % (sum(1 for x in evs[:i] if x.op == "write"), rng.choice([28, 122, 27])), fop="write")
            what = what.replace("failing", "and all other writing failing")
        if sticky and rng.random() < .4 and e.op == "write":
            shim["short"] = rng.randrange(1000)
        r = w.run(*o.args, shim=shim)
        f = [x for x in r.events if x.cls == "F"]
        if f:
            hits += 1
            obs.count("faults_injected")
            obs.count("fault_" + f[0].op)
        if code == errno.EINTR and not r.ok:
            raise Violation("%s: an interrupted call made the command fail: %s" % (what, r))
        obs.count("commands_that_failed" if not r.ok else "commands_that_succeeded")
        if r.rc < 0:
            raise Violation("%s: killed by signal %d: %s" % (what, -r.rc, r))
        judge(w, o, obs, r, what, rng, [x.op for x in f])
        obs.key(d["op"], d["remote"], e.op, i, sticky, d["i"])
    obs.sample = dict(command=o.args[0], op=d["op"], remote=d["remote"], cls=d["cls"], calls=len(evs), points=len(points), hits=hits)


def judge(w, o, obs, r, what, rng, failed=()):
    ok = r.ok
    eq = "stat" in failed or "realpath" in failed   # a local file that cannot be seen is fetched again
    if ok and o.final:
        ops.verify(w, o, what, equivalent=eq)
        installed(w, o, what)
    else:
        ops.verify(w, o, what, final=ok, equivalent=eq)
    if not ok and ops.real(w) != o.cur0:
        # only the last step may have been done: the link is right, and it is reported as failed
        raise Violation("%s: failed, but `current` was changed" % what)
    for where, names_ in (("local", w.stray()), ("remote", w.stray(w.remote.path) if w.remote.kind == "dir" else [])):
        if names_ and "unlink" not in failed:
            raise Violation("%s: left %s in the %s store" % (what, names_, where))
    obs.count("states_judged")
    if rng.random() < .5 or not ok:
        r = w.run(*o.args)
        if not r.ok:
            raise Violation("%s: the command fails even without fault afterwards: %s" % (what, r))
        if o.final:
            ops.verify(w, o, what + ", then again without fault", equivalent=eq)
            installed(w, o, what)
        else:
            ops.verify(w, o, what + ", then again without fault", final=True, equivalent=eq)
        obs.count("repetitions_judged")
    w.restore(o.saved)


def installed(w, o, what):
    if ops.real(w) != o.cur1:
        raise Violation("%s: succeeded, but `current` leads to %r instead of %r" % (what, ops.real(w), o.cur1))
    c = zs.try_decompress(read(ops.real(w)))
    if c != o.truth[o.target]:
        raise Violation("%s: succeeded, but the installed build is wrong" % what)
