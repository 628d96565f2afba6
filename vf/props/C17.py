import hashlib, threading
import graphs, ops
from world import *

LEVEL = "exploration"
WORKERS = 6
RULE = ("Each case starts two to eight processes at (almost) the same time on shared stores (one local directory, several local directories with one "
        "remote directory or S3 bucket, or a mixture): all the same command, commands that complement each other, or commands that conflict; random "
        "delays at the file-system events, standing clocks, killed bystanders. An observer thread reads every new artefact as soon as it is visible, the "
        "processes themselves log the state of `current` at each event, and afterwards exit statuses and the final stores are compared with what the "
        "successful commands must have produced. Distinct by scenario and by the order of all file-system events in the merged log.")
ASSUMPTIONS = ["no two commands add different content under one version while patches of this version are made", "process ids of processes sharing a store differ"]
SAME = ["install", "install_chain", "add", "package", "create", "auto", "sync", "upload", "add_calc"]
MIX = ["installs_one_local", "installs_many", "adds", "creates", "syncs", "machines", "everything", "producer_consumer", "chain_creates"]
CONFLICT = ["package_apart", "replace", "replace_install", "replace_sync", "killed", "sync_differ"]


def cases(tier, rng):
    n = 36 if tier == "quick" else 900
    cs = []
    for j in range(n):
        for s in SAME + MIX + CONFLICT:
            cs.append(dict(sc=s, remote="s3" if rng.random() < .3 else "dir", procs=rng.choice([2, 2, 3, 4, 6, 8] if s in SAME else [2, 3, 4, 6]),
                           delay=rng.choice([0, 100, 400, 1500, 4000]), freeze=rng.random() < .35, big=rng.random() < .3, i=j))
    return cs


class P:
    """one process: its command, its local store, what it must produce there"""
    def __init__(self, args, local, need=(), current=None, upload=(), must=True, kill=0):
        self.args, self.local, self.need, self.current, self.upload, self.must, self.kill = args, local, set(need), current, set(upload), must, kill
        self.exact = {}        # name -> content that its local store must have in the end


class Observer(threading.Thread):
    """reads artefacts as soon as they appear, as another program would"""
    def __init__(self, dirs):
        super().__init__(daemon=True)
        self.dirs, self.stop, self.seen, self.links, self.looks = dirs, False, {}, {}, 0
        self.missing = {}

    def run(self):
        had = {}
        while True:
            last = self.stop
            for d in self.dirs:
                try:
                    es = os.listdir(d)
                except OSError:
                    continue
                for n in es:
                    if not is_artefact(n):
                        continue
                    p = os.path.join(d, n)
                    try:
                        st = os.lstat(p)
                        key = (d, n, st.st_ino, st.st_size, st.st_mtime_ns)
                        if key in self.seen or not stat.S_ISREG(st.st_mode):
                            continue
                        self.seen[key] = read(p)
                    except OSError:
                        pass
                l = os.path.join(d, "current")
                try:
                    t = os.readlink(l)
                    had[d] = True
                    q = os.path.join(d, t)
                    if (d, t) not in self.links:
                        st = os.stat(q)
                        self.links[(d, t)] = read(q)
                except FileNotFoundError:
                    if had.get(d):
                        self.missing[d] = os.path.lexists(l)
                except OSError:
                    pass
                self.looks += 1
            if last:
                return
            time.sleep(.0003)


def build_case(d, w, rng):
    """-> processes, truth (version -> content), alt (version -> list of contents)"""
    k = d["procs"]
    sc = d["sc"]
    vs = names(rng, 5)
    c = content(rng, 120000 if d["big"] else rng.choice([300, 6000]))
    truth = {}
    for v in vs:
        c = mutate(rng, c)
        while c in truth.values():
            c = mutate(rng, c)
        truth[v] = c
    B = {v: zs.compress(truth[v]) for v in vs}
    bn = lambda v: v + ".tar.zst"
    pad = zs.skippable(200000)
    enc = lambda a, b: zs.compress(bpatch.encode(truth[a], truth[b], rng))
    alt = {}
    L = w.local
    remote = lambda *xs: [w.remote.put(bn(x), B[x] + pad) for x in xs]
    local = lambda *xs: [w.put_local(bn(x), B[x]) for x in xs]
    ps = []
    srcs = {}

    def src(v, data=None, tag=""):
        p = os.path.join(w.src, tag + "d%d" % len(srcs))
        os.mkdir(p)
        srcs[p] = 1
        p = os.path.join(p, bn(v))
        write(p, data or B[v])
        return p

    def link(v, where=L):
        os.symlink(os.path.join(where, bn(v)), os.path.join(where, "current"))

    def machine(i):
        return w.machine("m%d" % i)

    def tree_(c):
        p = os.path.join(w.src, "t%d" % len(os.listdir(w.src)))
        os.mkdir(p)
        for i in range(3):
            write(os.path.join(p, "f%d" % i), c[i::3] or b"-", 0o644)
        return p

    def pkg_truth(v, t):
        m = w.machine("ref-" + str(len(os.listdir(w.root))))
        w.ok("add-package", v, t, local=m)
        truth[v] = zs.decompress(w.lfiles(m)[bn(v)])
        shutil.rmtree(m)
    a, b, c_, e, f = vs
    if sc == "install":
        remote(*vs)
        if rng.random() < .6:
            local(a)
            link(a)
        ps = [P(["install", b], L, [bn(b)], b) for _ in range(k)]
    elif sc == "install_chain":
        remote(*vs)
        local(a)
        link(a)
        for x, y in ((a, b), (b, c_), (c_, e)):
            w.remote.put(patch_name(x, y), enc(x, y))
        ps = [P(["install", e], L, [bn(e)], e) for _ in range(k)]
    elif sc == "add":
        ps = [P(["add", src(a)], L, [bn(a)]) for _ in range(k)]
    elif sc == "package":
        t = tree_(truth[a])
        pkg_truth(a, t)
        ps = [P(["add-package", a, t], L, [bn(a)]) for _ in range(k)]
    elif sc == "package_apart":      # one version name, but every machine its own stores' worth of content
        alt[a] = []
        for i in range(k):
            c = mutate(rng, c)
            t, m = tree_(c), machine(i)
            pkg_truth(a, t)
            alt[a].append(truth.pop(a))
            ps.append(P(["add-package", a, t], m, [bn(a)]))
            ps[-1].exact = {bn(a): alt[a][-1]}
    elif sc == "create":
        remote(a, b)
        if rng.random() < .5:
            local(a)
        ps = [P(["create-patch", a, b], L, [bn(a), bn(b), patch_name(a, b)]) for _ in range(k)]
    elif sc == "auto":
        tags = ["1.0.8", "1.0.9", "0.9.9", "1.0.10"]
        truth.clear()
        vs2 = dict(zip(tags, ops._family(rng, c, 4)))
        truth.update(vs2)
        for v in tags:
            B[v] = zs.compress(truth[v])
            w.remote.put(bn(v), B[v])
        repo = os.path.join(w.src, "repo")
        os.mkdir(repo)
        ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"], *[["tag", t] for t in tags])
        need = [bn("1.0.9"), bn("1.0.10"), bn("0.9.9"), patch_name("1.0.9", "1.0.10"), patch_name("0.9.9", "1.0.10")]
        ps = [P(["auto-patch", "--repo-root", repo, "1.0.10"], L, need) for _ in range(k)]
    elif sc == "sync":
        local(*vs)
        w.put_local(patch_name(a, b), enc(a, b))
        up = [bn(v) for v in vs] + [patch_name(a, b)]
        ps = [P(["sync"], L, (), None, up) for _ in range(k)]
    elif sc == "upload":
        local(b)
        ps = [P(["add", src(a), "--upload", "--calc-patch-from", b], L, [bn(a), patch_name(b, a)], None, [bn(a), bn(b), patch_name(b, a)]) for _ in range(k)]
    elif sc == "add_calc":
        remote(b)
        ps = [P(["add", src(a), "--calc-patch-from", b], L, [bn(a), patch_name(b, a)]) for _ in range(k)]
    elif sc == "installs_one_local":
        remote(*vs)
        for x, y in ((a, b), (b, c_)):
            if rng.random() < .5:
                w.remote.put(patch_name(x, y), enc(x, y))
        if rng.random() < .7:
            local(a)
            link(a)
        ps = [P(["install", v], L, [bn(v)], v) for v in (vs[1:] * 2)[:k]]
    elif sc == "installs_many":
        remote(*vs)
        w.remote.put(patch_name(a, b), enc(a, b))
        for i in range(k):
            m = machine(i)
            if i % 2:
                write(os.path.join(m, bn(a)), B[a])
                link(a, m)
            ps.append(P(["install", b], m, [bn(b)], b))
    elif sc == "adds":
        ps = [P(["add", src(v)], L, [bn(v)]) for v in vs[:k]]
    elif sc == "creates":
        remote(*vs)
        pairs = [(x, y) for x in vs for y in vs if x != y]
        ps = [P(["create-patch", x, y], L, [bn(x), bn(y), patch_name(x, y)]) for x, y in rng.sample(pairs, k)]
    elif sc == "chain_creates":
        remote(*vs)
        ps = [P(["create-patch", x, y], L, [bn(x), bn(y), patch_name(x, y)]) for x, y in (list(zip(vs, vs[1:])) * 2)[:k]]
    elif sc == "syncs":
        for i in range(k):
            m = machine(i)
            mine = {bn(v): B[v] for v in rng.sample(vs, 3)}
            for n, x in mine.items():
                write(os.path.join(m, n), x)
            ps.append(P(["sync"], m, (), None, mine))
    elif sc == "machines":
        # one makes and uploads, the others install, each on its own machine
        remote(a, b, e)
        w.remote.put(patch_name(a, b), enc(a, b))
        for i in range(k):
            m = machine(i)
            x = i % 3
            if x == 0:
                write(os.path.join(m, bn(f)), B[f])
                ps.append(P(["sync"], m, (), None, [bn(f)]))
            elif x == 1:
                write(os.path.join(m, bn(a)), B[a])
                link(a, m)
                ps.append(P(["install", b], m, [bn(b)], b))
            else:
                ps.append(P(["add", src(c_), "--calc-patch-from", e, "--upload"], m, [bn(c_), patch_name(e, c_)], None, [bn(c_), patch_name(e, c_)]))
    elif sc == "everything":
        remote(a, b, c_)
        local(a)
        link(a)
        t = tree_(truth[e])
        pkg_truth(e, t)
        pool = [P(["install", b], L, [bn(b)], b), P(["install", c_], L, [bn(c_)], c_), P(["create-patch", a, b], L, [bn(a), bn(b), patch_name(a, b)]), P(["sync"], L, (), None, [bn(a)]),
                P(["add", src(f), "--upload"], L, [bn(f)], None, [bn(f)]), P(["add-package", e, t], L, [bn(e)]), P(["create-patch", b, c_], L, [bn(b), bn(c_), patch_name(b, c_)]), P(["debug"], L)]
        ps = rng.sample(pool, min(k, len(pool)))
    elif sc == "producer_consumer":
        # uploads of new builds to a shared directory while others install from it
        remote(a, b)
        ps = []
        for i in range(k):
            m = machine(i)
            if i % 2 == 0:
                v = [c_, e, f][i // 2 % 3]
                write(os.path.join(m, bn(a)), B[a])
                ps.append(P(["add", src(v), "--calc-patch-from", a, "--upload"], m, [bn(v), patch_name(a, v)], None, [bn(v), patch_name(a, v)]))
            else:
                v = [c_, e, f][i // 2 % 3]
                write(os.path.join(m, bn(a)), B[a])
                link(a, m)
                ps.append(P(["install", v], m, [bn(v)], v, must=False))
    elif sc in ("replace", "replace_install", "replace_sync"):
        other = mutate(rng, truth[a]) + b"2"
        alt[a] = [truth[a], other]
        local(a, b)
        link(a)
        for i in range(k):
            if i and sc == "replace_install" and i % 2:
                ps.append(P(["install", [a, b][i // 2 % 2]], L, [bn([a, b][i // 2 % 2])], [a, b][i // 2 % 2]))
            elif i and sc == "replace_sync" and i % 2:
                ps.append(P(["sync"], L, (), None, [bn(a), bn(b)]))
            else:
                ps.append(P(["add", src(a, [B[a], zs.compress(other)][i // 2 % 2])], L, [bn(a)]))
    elif sc == "sync_differ":
        for i in range(k):
            m = machine(i)
            x = mutate(rng, truth[a]) + bytes([i])
            alt.setdefault(a, [truth[a]]).append(x)
            write(os.path.join(m, bn(a)), zs.compress(x))
            write(os.path.join(m, bn(b)), B[b])
            ps.append(P(["sync"], m, (), None, [bn(a), bn(b)]))
    elif sc == "killed":
        remote(*vs)
        local(a)
        link(a)
        w.remote.put(patch_name(a, b), enc(a, b))
        ps = [P(["install", b], L, [bn(b)], b, kill=0 if i % 2 else rng.randint(1, 12)) for i in range(k)]
        ps += [P(["create-patch", a, c_], L, [bn(a), bn(c_), patch_name(a, c_)], kill=0 if rng.random() < .5 else rng.randint(1, 9)) for i in range(2)]
    else:
        raise AssertionError(sc)
    return ps, truth, alt


def judge_artefact(w, n, data, truth, alt, what):
    if is_build(n) and n[:-8] in alt:
        c = zs.try_decompress(data)
        if c is None or c not in alt[n[:-8]]:
            raise Violation("%s: build %r is %s" % (what, n, "not a complete archive (%d bytes)" % len(data) if c is None else "a mixture"))
        return
    w.check_artefacts({n: data}, truth, what)


def run(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    ps, truth, alt = build_case(d, w, rng)
    what = "%s, %d processes (%s)" % (d["sc"], len(ps), d["remote"])
    dirs = sorted({p.local for p in ps})
    l0 = {m: w.lfiles(m) for m in dirs}
    r0 = dict(w.remote.files())
    cur0 = {m: ops_real(w, m) for m in dirs}
    log = os.path.join(w.ctl, "merged")
    ob = Observer(dirs + ([w.remote.path] if w.remote.kind == "dir" else []))
    if w.srv and d["delay"]:
        r2 = random.Random(d["seed"])
        w.srv.delay = lambda rec: r2.random() * d["delay"] / 100000
    ob.start()
    hs = []
    now = int(time.time())
    for i, p in enumerate(ps):
        shim = dict(log=log, watch=os.path.join(p.local, "current"))
        if d["delay"]:
            shim["delay"] = "%d:%d" % (rng.randrange(10 ** 6), max(1, int(d["delay"] * rng.choice([.1, 1, 1]))))
        if d["freeze"]:
            shim["freeze"] = now
        if p.kill:
            shim.update(kill=p.kill, kmode=rng.choice(["before", "after", "partial"]))
        hs.append(w.start(*p.args, local=p.local, shim=shim))
        if rng.random() < .2:
            time.sleep(rng.random() * .01)
    try:
        rs = [w.finish(h) for h in hs]
    finally:
        ob.stop = True
        ob.join()
    evs = []
    if os.path.exists(log):
        with open(log, "rb") as fh:
            evs = [Ev(l) for l in fh if l.endswith(b"\n")]
    obs.count("fs_events", len(evs))
    # every artefact that was visible at some moment
    for (dr, n, *_), data in ob.seen.items():
        if data is None:
            continue
        judge_artefact(w, n, data, truth, alt, "%s: seen in %s while they ran" % (what, os.path.basename(dr)))
    obs.count("artefacts_seen_while_running", len(ob.seen))
    obs.count("looks", ob.looks)
    for (dr, t), data in ob.links.items():
        n = os.path.basename(t)
        if os.path.dirname(os.path.join(dr, t)) != dr or not is_build(n):
            raise Violation("%s: `current` led to %r" % (what, t))
        judge_artefact(w, n, data, truth, alt, "%s: `current` while they ran" % what)
    for dr in ob.missing:
        raise Violation("%s: `current` was %s for a moment" % (what, "dangling" if ob.missing[dr] else "missing"))
    # what the processes themselves saw of `current`
    pid = {h[0].pid: i for i, h in enumerate(hs)}
    appeared = {}
    for e in evs:
        if e.cls != "W" or e.pid not in pid:
            continue
        loc = ps[pid[e.pid]].local
        obs.count("states_of_current")
        if e.n == -2:
            if cur0[loc] is not None or appeared.get(e.pid):
                raise Violation("%s: `current` was missing while they ran" % what)
            continue
        appeared[e.pid] = True
        q = os.path.join(loc, e.path)
        ok = {os.path.join(loc, p.current + ".tar.zst") for p in ps if p.local == loc and p.current} | {cur0[loc]}
        if q not in ok:
            raise Violation("%s: `current` led to %r while they ran" % (what, e.path))
        if e.n <= 0:
            raise Violation("%s: `current` led to %r of %d bytes while they ran" % (what, e.path, e.n))
    # exit statuses
    conflict = d["sc"] in CONFLICT
    for p, r in zip(ps, rs):
        if p.kill and r.rc == -9:
            continue
        if not r.ok and p.must:
            raise Violation("%s: failed beside %s: %s" % (what, [" ".join(q.args) for q in ps if q is not p][:6], r))
        if r.rc < 0:
            raise Violation("%s: killed by a signal: %s" % (what, r))
    # the final state
    rem = dict(w.remote.files())
    rneed = set(r0)
    for m in dirs:
        now_ = w.lfiles(m)
        need = set(l0[m])
        curs = {cur0[m]}
        fixed = []
        for p, r in zip(ps, rs):
            if p.local != m:
                continue
            if r.ok:
                need |= p.need
                rneed |= p.upload
                if p.current:
                    curs.add(os.path.join(m, p.current + ".tar.zst"))
                    fixed.append(p.current)
            elif r.rc == -9 and p.current:
                curs.add(os.path.join(m, p.current + ".tar.zst"))
        if fixed:
            curs -= {cur0[m]} - {os.path.join(m, v + ".tar.zst") for v in fixed}
        for n in need:
            if n not in now_:
                raise Violation("%s: %r is missing in the end" % (what, n))
        for n in now_:
            if is_artefact(n):
                judge_artefact(w, n, now_[n], truth, alt, "%s: in the end" % what)
        for n, x in l0[m].items():
            if now_[n] != x and n[:-8] not in alt:
                raise Violation("%s: the existing %r was changed" % (what, n))
        may = need | set(rem) | set(r0)
        if any(p.args[0] == "install" for p in ps if p.local == m):
            may |= {patch_name(x, y) for x in truth for y in truth} | {v + ".tar.zst" for v in truth}
        for p, r in zip(ps, rs):
            if p.local == m and not r.ok:
                may |= p.need
        for p in ps:
            for n, x in p.exact.items():
                if p.local == m and n in now_ and zs.try_decompress(now_[n]) != x:
                    raise Violation("%s: %r has the content of another process's source" % (what, n))
        more = {n for n in now_ if n not in may}
        killed = any(r.rc == -9 for r in rs)
        more = {n for n in more if not (killed and not is_artefact(n))}
        if more:
            raise Violation("%s: %s is left in the end" % (what, sorted(more)))
        left = ops_real(w, m)
        if left not in curs:
            raise Violation("%s: in the end `current` leads to %r instead of one of %s" % (what, left, curs))
        links = [n for n in os.listdir(m) if os.path.islink(os.path.join(m, n)) and n != "current"]
        if links and not killed:
            raise Violation("%s: %s is left in the end" % (what, links))
    for n in rneed:
        if n not in rem:
            raise Violation("%s: %r is missing on the remote in the end" % (what, n))
    allowed = set(rneed)
    for m in dirs:
        allowed |= {n for n in w.lfiles(m) if is_artefact(n)}
    uploads = any(p.upload for p in ps)
    for n, x in rem.items():
        if n in r0:
            if r0[n] != x:
                raise Violation("%s: %r on the remote was changed" % (what, n))
            continue
        if not uploads or n not in allowed:
            raise Violation("%s: %r is on the remote in the end" % (what, n))
        judge_artefact(w, n, x, truth, alt, "%s: remote in the end" % what)
    if w.remote.kind == "dir" and w.stray(w.remote.path) and not any(r.rc == -9 for r in rs):
        raise Violation("%s: %s is left in the remote directory" % (what, w.stray(w.remote.path)))
    obs.count("final_states_judged")
    obs.count("killed_bystanders", sum(r.rc == -9 for r in rs))
    order = tuple((pid.get(e.pid), e.op) for e in evs if e.cls in "MR")
    switches = sum(1 for x, y in zip(order, order[1:]) if x[0] != y[0])
    obs.count("switches_between_processes", switches)
    obs.key(d["sc"], hashlib.sha1(repr(order).encode()).hexdigest()) if switches >= len(ps) - 1 else obs.key(d["sc"], "serial", d["i"])
    obs.sample = dict(scenario=d["sc"], remote=d["remote"], processes=len(ps), events=len(evs), switches=switches, artefacts_seen=len(ob.seen), looks=ob.looks, delay_us=d["delay"],
                      standing_clock=d["freeze"])


def ops_real(w, m):
    t = w.current(m)
    return None if t is None else os.path.realpath(os.path.join(m, t))
