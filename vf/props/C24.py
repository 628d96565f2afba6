import collections, fcntl, pty, select, struct, termios
import ops, graphs
from world import *
from props import C15

LEVEL = "exploration"
RULE = ("Five kinds of cases. Every subcommand in several situations with standard streams that never end (a pipe full of data, a terminal), few descriptors and a little memory: it has to end by itself with the result of an "
        "undisturbed run, without having taken anything from its input, and nothing that it started may live on (end of file on a pipe that it inherited). Sources and stores with up to thousands of files and "
        "deep directories under a limit of 24 open files. Files of 64 to 300 MB packaged, added, uploaded and fetched: peak memory must stay below 40 MB. Dense, layered, cyclic and long version graphs and "
        "merge-ridden git histories, in which the number of routes is exponential: 10 s of processor time must suffice (0.1 s are used). The same command on stores twice and four times as large: file-system calls and "
        "requests may grow no faster than the number of files, and with 12000 versions and as many patches and tags the processor time no faster either. Distinct by kind, command and sizes.")
ASSUMPTIONS = ["how many connections to S3 stay open is up to the AWS library", "S3 objects may be held in memory; so may the contents of two builds between which a patch is made or applied"]
CPU = 10
SCALE = ["sync_none", "sync_all", "install", "add", "create", "debug", "pkg", "auto", "s3_sync_all", "s3_install"]


def cases(tier, rng):
    q = tier == "quick"
    cs = []
    for i in range(4 if q else 60):
        cs += [dict(act="stdio", op=k, remote="s3" if j % 4 == 1 else "dir", i=i) for j, k in enumerate(ops.ALL)]
    for i in range(2 if q else 12):
        cs += [dict(act="fds", op=k, i=i) for k in ("wide", "deep", "sync", "install", "create", "auto")]
        cs += [dict(act="mem", op=k, i=i, size=rng.choice([64, 96, 128] if i == 0 else [100, 150, 300]) << 20) for k in ("pkg", "pkg_tree", "add", "sync", "install")]
    for i in range(3 if q else 40):
        cs += [dict(act="graph", op=k, i=i, remote="s3" if i % 3 == 2 else "dir") for k in ("complete", "layers", "equal", "ladder", "cycle", "long", "noroute")]
        cs += [dict(act="git", op=k, i=i) for k in ("tags", "merges", "nested")]
    for i in range(1 if q else 8):
        cs += [dict(act="scale", op=k, i=i) for k in SCALE]
    cs += [dict(act="bulk", i=i, remote="s3" if i % 3 == 2 else "dir") for i in range(1 if q else 12)]
    rng.shuffle(cs)
    return cs


def cpu(r):
    u = r.usage
    return u.ru_utime + u.ru_stime if u else 0


def peak(w, r):
    """peak memory in KB; the usage that the kernel reports includes what our own process had before exec"""
    p = os.path.join(w.ctl, "hwm")
    if not os.path.exists(p):
        raise Inconclusive("no peak memory recorded: %s" % r)
    n = int(read(p).split()[0])
    os.unlink(p)
    return n


def go(w, obs, *args, nofile=None, rc=0, **kw):
    lim = dict(CPU=CPU, **({"NOFILE": nofile} if nofile else {}))
    r = w.run(*args, limits=lim, timeout=180, **kw)
    if r.rc in (-24, -9) and cpu(r) > CPU - 1:
        raise Violation("%r has not ended after %d s of processor time" % (args, CPU))
    if rc is not None and r.rc != rc:
        raise Violation("%s%r: exit status %d instead of %d: %s" % ("with at most %d open files, " % nofile if nofile else "", args, r.rc, rc, r))
    obs.count("cpu_ms", int(cpu(r) * 1000))
    return r


def stdio(d, w, obs):
    rng = w.rng
    w.level = rng.choice(["1", "3", "-5"])
    o = ops.make(w, rng, d["op"], d["remote"])
    ops.reference(w, o, obs)
    kind = rng.choice(["pipe", "pipe", "tty", "ttyall", "openpipe"])
    fds, keep, data = [], [], b""
    a, b = os.pipe()             # whoever still lives holds b
    fds += [a]
    kw = {}
    if kind in ("pipe", "openpipe"):
        r0, w0 = os.pipe()
        data = b"" if kind == "openpipe" else rng.choice([b"y\n", b"n\n", b"yes\n" * 200, b"\0" * 5000])
        os.write(w0, data)
        fds += [r0, w0]
        kw["stdin"] = r0
    else:
        m, s = pty.openpty()
        at = termios.tcgetattr(s)
        fds += [m, s]
        kw["stdin"] = s
        os.write(m, b"n\n")
        if kind == "ttyall":
            kw["fds"] = {1: os.ttyname(s), 2: os.ttyname(s)}
    lim = dict(CPU=CPU, NOFILE=24 if d["remote"] == "dir" else 100)
    try:
        h = w.start(*o.args, shim=dict(hwm=os.path.join(w.ctl, "hwm")), limits=lim, keep=(b,), **kw)
        os.close(b)
        b = None
        r = w.finish(h, 100)
        if r.rc != 0:
            raise Violation("fails with other standard streams (%s): %s" % (kind, r))
        if not select.select([a], [], [], 3)[0]:
            raise Violation("a process that %r has started is still there after its end" % (o.args,))
        if kind == "pipe":
            n = len(os.read(r0, len(data) + 1))
            if n != len(data):
                raise Violation("%r has read %d bytes of its standard input" % (o.args, len(data) - n))
        elif kind.startswith("tty"):
            n = struct.unpack("i", fcntl.ioctl(s, termios.FIONREAD, b"\0" * 4))[0]
            if n != 2:
                raise Violation("%r has read from the terminal (%d of 2 bytes left)" % (o.args, n))
            if termios.tcgetattr(s) != at:
                raise Violation("%r has changed the settings of the terminal" % (o.args,))
        kb = peak(w, r)
        if kb > 40 << 10:
            raise Violation("%r has used %d MB of memory for %d KB of files" % (o.args, kb >> 10, sum(map(len, w.lfiles().values())) >> 10))
        ops.verify(w, o, "with %s as standard streams" % kind, final=True)
    finally:
        for f in fds + ([b] if b is not None else []):
            os.close(f)
    obs.count("streams_watched")
    obs.key("stdio", d["op"], d["remote"], kind)


def fds(d, w, obs):
    rng = w.rng
    op = d["op"]
    w.use_dir()
    lim = 24
    if op in ("wide", "deep"):
        t = os.path.join(w.src, "t")
        os.mkdir(t)
        want = {}
        if op == "wide":
            n = rng.choice([1100, 2500])
            for i in range(n):
                p = "d%d/%d" % (i % rng.choice([1, 30, 400]), i)
                os.makedirs(os.path.join(t, os.path.dirname(p)), exist_ok=True)
                want[p] = b"%d" % i
        else:
            for _ in range(4):
                p = "/".join(rng.choice("abcxyz") for _ in range(rng.choice([20, 60, 120]))) + "/f"
                want[p] = p.encode()
            for p in want:
                os.makedirs(os.path.dirname(os.path.join(t, p)), exist_ok=True)
        for p, c in want.items():
            write(os.path.join(t, p), c)
        go(w, obs, "add-package", "1", t, nofile=lim)
        import io, tarfile
        got = {m.name: None for m in tarfile.open(fileobj=io.BytesIO(zs.decompress(w.lfiles()["1.tar.zst"])))}
        if set(got) != set(want):
            raise Violation("the package lacks %d files and has %d too many" % (len(set(want) - set(got)), len(set(got) - set(want))))
    elif op == "sync":
        n = rng.choice([300, 900])
        have = {"v%d.tar.zst" % i: zs.compress(b"%d" % i) for i in range(n)}
        for k, x in have.items():
            w.put_local(k, x)
        go(w, obs, "sync", nofile=lim)
        if dict(w.remote.files()) != have:
            raise Violation("sync with many files has not made the remote equal to the local store")
    else:
        n = rng.choice([200, 700])
        for i in range(n):
            x = zs.compress(b"content %d" % i)
            (w.remote.put if i % 3 else w.put_local)("1.%d.tar.zst" % i, x)
        if op == "install":
            go(w, obs, "install", "1.%d" % (n - 1), nofile=lim)
            w.check_current("1.%d" % (n - 1))
        elif op == "create":
            go(w, obs, "create-patch", "1.1", "1.2", nofile=lim)
        else:
            repo = os.path.join(w.src, "repo")
            os.mkdir(repo)
            ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"])
            h = ops_head(repo)
            write(os.path.join(repo, ".git/packed-refs"), b"".join(b"%s refs/tags/1.%d\n" % (h, i) for i in sorted(range(n), key=lambda i: str(i))))
            go(w, obs, "auto-patch", "--repo-root", repo, "1.%d" % (n - 1), nofile=lim)
            if "1.%d-1.%d.patch.zst" % (n - 2, n - 1) not in w.lfiles():
                raise Violation("auto-patch among %d tags has made %s" % (n, [x for x in w.lfiles() if is_patch(x)]))
    obs.count("limited_runs")
    obs.key("fds", op, lim, len(w.lfiles()))


def ops_head(repo):
    g = os.path.join(repo, ".git/refs/heads")
    return read(os.path.join(g, os.listdir(g)[0])).strip()


def mem(d, w, obs):
    rng = w.rng
    w.use_dir()
    w.level = rng.choice(["1", "3", "-1"])
    n, op = d["size"], d["op"]
    big = os.path.join(w.src, "x.tar.zst")

    def blob(path):
        with open(path, "wb") as f:
            if rng.random() < .5:
                f.truncate(n)
            else:
                b = rng.randbytes(1 << 20)
                for _ in range(n >> 20):
                    f.write(b)
    if op == "pkg":
        blob(big)
        args, made = ["add-package", "x", big], None
    elif op == "pkg_tree":
        t = os.path.join(w.src, "t")
        os.mkdir(t)
        blob(os.path.join(t, "big"))
        write(os.path.join(t, "small"), b"x")
        args, made = ["add-package", "x", t], None
    elif op == "add":
        blob(big)
        args, made = ["add", big] + (["--upload"] if rng.random() < .5 else []), os.path.join(w.local, "x.tar.zst")
    elif op == "sync":
        big = os.path.join(w.local, "x.tar.zst")
        blob(big)
        args, made = ["sync"], os.path.join(w.remote.path, "x.tar.zst")
    else:
        big = os.path.join(w.remote.path, "x.tar.zst")
        blob(big)
        args, made = ["install", "x"], os.path.join(w.local, "x.tar.zst")
    r = w.run(*args, shim=dict(hwm=os.path.join(w.ctl, "hwm")), limits=dict(CPU=60), timeout=200)
    if r.rc != 0:
        raise Violation("fails with a file of %d MB: %s" % (n >> 20, r))
    if made and os.path.getsize(made) != os.path.getsize(big):
        raise Violation("%r: copied %d of %d bytes" % (args, os.path.getsize(made), os.path.getsize(big)))
    kb = peak(w, r)
    if kb > 40 << 10:
        raise Violation("%r with a file of %d MB has used %d MB of memory" % (args, n >> 20, kb >> 10))
    obs.count("big_files")
    obs.sample = dict(command=args[0], file_mb=n >> 20, peak_memory_mb=kb >> 10)
    obs.key("mem", op, n, kb >> 12)


def graph(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    op = d["op"]
    k = dict(complete=rng.choice([30, 45, 60]), layers=6 * 14, equal=5 * 12, ladder=2 * 40, cycle=50, long=rng.choice([200, 500]), noroute=60)[op]
    vs = ["%s%d" % (rng.choice("abvz"), i) for i in rng.sample(range(10000), k)]
    truth = {v: b"the content of " + v.encode() for v in vs}
    size = 60000 if op != "noroute" else 200
    for v in vs:
        w.remote.put(v + ".tar.zst", zs.compress(truth[v]) + zs.skippable(size))
    pairs = []
    if op == "complete":
        pairs = [(a, b) for a in vs for b in vs if a != b]
    elif op in ("layers", "equal"):
        n = 6 if op == "layers" else 5
        for i in range(0, k - n, n):
            pairs += [(a, b) for a in vs[i:i + n] for b in vs[i + n:i + 2 * n]]
        pairs += [(vs[-n], vs[-1])]
    elif op == "ladder":
        for i in range(0, k - 2, 2):
            pairs += [(vs[i], vs[i + 2]), (vs[i], vs[i + 1]), (vs[i + 1], vs[i + 2]), (vs[i + 1], vs[i + 3])]
    elif op == "cycle":
        pairs = list(zip(vs, vs[1:] + vs[:1])) + list(zip(vs[1:], vs)) + [(vs[i], vs[i // 2]) for i in range(2, k)]
    elif op == "long":
        pairs = list(zip(vs, vs[1:])) + list(zip(vs[1:], vs))
    else:
        pairs = [(a, b) for a in vs[:-1] for b in vs[:-1] if a != b and rng.random() < .5]
    target = vs[-1] if op != "ladder" else vs[-2]
    for a, b in set(pairs):
        x = zs.compress(bpatch.encode(truth[a], truth[b]))
        w.remote.put(patch_name(a, b), x + zs.skippable(400 - len(x) if op in ("equal", "ladder") else rng.randint(8, 200)))
    w.put_local(vs[0] + ".tar.zst", zs.compress(truth[vs[0]]))
    os.symlink(os.path.join(w.local, vs[0] + ".tar.zst"), os.path.join(w.local, "current"))
    r = go(w, obs, "install", target, nofile=24 if not w.srv else 1000)
    w.check_current(target)
    for n, b in w.lfiles().items():
        if is_build(n) and zs.try_decompress(b) != truth[n[:-8]]:
            raise Violation("%r has not the content of this version" % n)
    f = w.remote.fetched(r)
    if target + ".tar.zst" in f and op not in ("noroute", "long", "complete", "cycle"):
        raise Violation("fetched the whole build although a route of small patches exists: %s" % f)
    obs.count("graphs")
    obs.key("graph", op, k, len(set(pairs)), len(f), d["remote"])
    obs.sample = dict(graph=op, versions=k, patches=len(set(pairs)), fetched=len(f), cpu_s=round(cpu(r), 2))


def gitrepo(d, w, obs):
    rng = w.rng
    w.use_dir()
    repo = os.path.join(w.src, "repo")
    n = rng.choice([300, 900])
    os.mkdir(repo)
    ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"])
    h = ops_head(repo)
    tree_ = subprocess.run(["git", "rev-parse", "HEAD^{tree}"], cwd=repo, stdout=subprocess.PIPE, env={"PATH": "/usr/bin:/bin", "HOME": w.root}).stdout.strip()
    refs = {}
    if d["op"] == "tags":
        refs = {"1.%d.%d" % (i % 30, i): h for i in range(n)}
        refs["2.0.5"] = refs["2.0.4"] = refs["1.9.9"] = h
        cur = "2.0.5"
    elif d["op"] == "merges":
        a = b = h.decode()
        for i in range(35):      # 2^35 ways from the last commit to the first
            x = ["tree %s\nparent %s\nparent %s\nauthor a <a@b> %d +0000\ncommitter a <a@b> %d +0000\n\n%s%d\n" % (tree_.decode(), a, b, 1600000001 + i, 1600000001 + i, s, i) for s in "ab"]
            a, b = (C15.obj(repo, "commit", y.encode()) for y in x)
            refs["1.0.%d" % i] = rng.choice([a, b]).encode()
        write(os.path.join(repo, ".git/refs/heads/m"), a.encode() + b"\n")
        cur = "1.0.34"
    else:                        # tags of tags of tags
        x, kind = h.decode(), "commit"
        refs["1.0.1"] = h
        for i in range(60):
            x = C15.obj(repo, "tag", ("object %s\ntype %s\ntag t%d\ntagger a <a@b> 1600000000 +0000\n\nm\n" % (x, kind, i)).encode())
            kind = "tag"
        refs["1.0.2"] = x.encode()
        cur = "1.0.2"
    if rng.random() < .5:
        write(os.path.join(repo, ".git/packed-refs"), b"".join(b"%s refs/tags/%s\n" % (refs[t], t.encode()) for t in sorted(refs)))
    else:
        for t, x in refs.items():
            write(os.path.join(repo, ".git/refs/tags", t), x + b"\n")
    parts = cur.split(".")
    prev = ".".join(parts[:-1] + [str(int(parts[-1]) - 1)])
    for v in (prev, cur):
        w.remote.put(v + ".tar.zst", zs.compress(b"content of " + v.encode()))
    r = go(w, obs, "auto-patch", "--repo-root", repo, cur, nofile=24, rc=None)
    if patch_name(prev, cur) not in w.lfiles() or r.rc not in (0, 1):
        raise Violation("auto-patch (%s, %d tags) has not made %s: %s" % (d["op"], len(refs), patch_name(prev, cur), r))
    obs.count("repositories")
    obs.key("git", d["op"], len(refs), r.rc)


def scale(d, w, obs):
    op = d["op"]
    w.use("s3" if op.startswith("s3") else "dir")
    rng = w.rng
    counts, reqs = [], []
    sizes = [40, 80, 160] if not w.srv else [30, 60, 120]
    for n in sizes:
        m = w.machine("m%d" % n)
        for x in list(w.remote.files()):
            w.remote.delete(x)
        vs = ["1.%d" % i for i in range(n)]
        op_ = op.replace("s3_", "")
        for i, v in enumerate(vs):
            b = zs.compress(b"x%d" % i) + zs.skippable(3000)
            if op_ in ("sync_none", "install", "add", "create", "debug", "auto") or (op_ == "sync_some" and i % 2):
                w.remote.put(v + ".tar.zst", b)
            if op_ in ("sync_none", "sync_all", "add", "debug") or i == 0:
                w.put_local(v + ".tar.zst", b, m)
        if op_ == "install":
            for a, b in zip(vs, vs[1:]):
                i = vs.index(b)
                w.remote.put(patch_name(a, b), zs.compress(bpatch.encode(b"x%d" % (i - 1), b"x%d" % i)))
            os.symlink(os.path.join(m, "1.0.tar.zst"), os.path.join(m, "current"))
            args = ["install", vs[-1]]
        elif op_.startswith("sync"):
            args = ["sync"]
        elif op_ == "add":
            f = os.path.join(w.src, "new.tar.zst")
            write(f, zs.compress(b"new"))
            args = ["add", f, "--upload"]
        elif op_ == "create":
            args = ["create-patch", vs[1], vs[-1]]
        elif op_ == "debug":
            args = ["debug"]
        elif op_ == "pkg":
            t = os.path.join(w.src, "t%d" % n)
            for i in range(n):
                os.makedirs(os.path.join(t, "d%d" % (i % 5)), exist_ok=True)
                write(os.path.join(t, "d%d" % (i % 5), str(i)), b"x" * 100)
            args = ["add-package", "p", t]
        else:
            repo = os.path.join(w.src, "repo%d" % n)
            os.mkdir(repo)
            ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"])
            h = ops_head(repo)
            write(os.path.join(repo, ".git/packed-refs"), b"".join(b"%s refs/tags/1.%d\n" % (h, i) for i in sorted(range(n), key=lambda i: str(i))))
            args = ["auto-patch", "--repo-root", repo, vs[-1]]
        r = go(w, obs, *args, local=m, shim={"stat": 1})
        counts.append(len(r.events))
        reqs.append(len(r.requests))
    for what, c in (("file-system calls", counts), ("requests", reqs)):
        # differences grow in proportion to the number of files, whatever the constant part is
        if c[2] - c[1] > 2.6 * max(c[1] - c[0], 12):
            raise Violation("%s: %s %s for %s files: grows faster than the number of files" % (op, c, what, sizes))
    if w.srv and reqs[2] > 3 * sizes[2] + 20:
        raise Violation("%s: %d requests for %d files" % (op, reqs[2], sizes[2]))
    if counts[2] > 60 * sizes[2] + 600:
        raise Violation("%s: %d file-system calls for %d files" % (op, counts[2], sizes[2]))
    obs.count("scaled_commands")
    obs.key("scale", op)
    obs.sample = dict(command=op, files=sizes, calls=counts, requests=reqs)


def bulk(d, w, obs):
    """processor time in stores of thousands of files grows like their number"""
    rng = w.rng
    w.use(d["remote"])
    ns = [3000, 12000]
    times = collections.defaultdict(list)
    wide = rng.random() < .5
    for n in ns:
        m = w.machine("b%d" % n)
        for x in list(w.remote.files()):
            w.remote.delete(x)
        b = zs.compress(b"x") + zs.skippable(4000)
        p = zs.compress(bpatch.encode(b"x", b"x"))
        vs = ["%05d.1" % i for i in range(n)]
        for i, v in enumerate(vs):
            (w.remote.put(v + ".tar.zst", b) if i % 4 else w.put_local(v + ".tar.zst", b, m))
            if i:
                k = patch_name(vs[0 if wide else i - 1], v)
                (w.remote.put(k, p) if i % 3 else w.put_local(k, p, m))
        os.symlink(os.path.join(m, vs[0] + ".tar.zst"), os.path.join(m, "current"))
        repo = os.path.join(w.src, "bulk%d" % n)
        os.mkdir(repo)
        ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"])
        h = ops_head(repo)
        write(os.path.join(repo, ".git/packed-refs"), b"".join(b"%s refs/tags/%s\n" % (h, v.encode()) for v in vs))
        f = os.path.join(w.src, "new%d.tar.zst" % n)
        write(f, b)
        cmds = [["debug"], ["install", vs[20]], ["create-patch", vs[7], vs[3]], ["add", f], ["auto-patch", "--repo-root", repo, "%05d.2" % 9]]
        w.put_local("%05d.2.tar.zst" % 9, b, m)
        if not w.srv:
            cmds.append(["sync"])
        for c in cmds:
            r = go(w, obs, *c, local=m, rc=0)
            times[c[0]].append(cpu(r))
    for k, (a, b) in times.items():
        obs.count("bulk_commands")
        if b > 2 and b > 8 * a:
            raise Violation("%s: %.2f s of processor time for %d versions, %.2f s for %d" % (k, a, ns[0], b, ns[1]))
    obs.key("bulk", d["remote"], wide)
    obs.sample = dict(bulk={k: [round(x, 2) for x in v] for k, v in times.items()}, versions=ns)


def run(d, w, obs):
    dict(stdio=stdio, fds=fds, mem=mem, graph=graph, git=gitrepo, scale=scale, bulk=bulk)[d["act"]](d, w, obs)
