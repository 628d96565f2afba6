"""A scratch world: local stores, a remote (directory or fake S3), the command
runner with the monitoring shim, and the observations taken from it."""
import errno, os, random, resource, select, shutil, stat, subprocess, tempfile, time
import core, zs, bpatch
from core import Violation, Inconclusive

_s3 = None


def s3server():
    global _s3
    if _s3 is None:
        import s3
        _s3 = s3.S3(core.ensure_certs())
    _s3.reset()
    return _s3


class Res:
    """Outcome of one command."""
    def __init__(self, argv, rc, out, err, events):
        self.argv, self.rc, self.out, self.err, self.events = argv, rc, out, err, events

    @property
    def ok(self):
        return self.rc == 0

    def __str__(self):
        return "`%s` -> rc %s\n%s" % (" ".join(map(ascii, self.argv)), self.rc, self.err.decode(errors="replace")[-1500:])


class Ev:
    __slots__ = ("cls", "pid", "op", "n", "path", "path2")

    def __init__(self, line):
        f = line.rstrip(b"\n").split(b"\t")
        self.cls, self.pid, self.op, self.n = f[0].decode(), int(f[1]), f[2].decode(), int(f[3])
        self.path, self.path2 = (_norm(_unq(x)) for x in f[4:6])

    def __repr__(self):
        return "%s %s(%d) %s%s" % (self.cls, self.op, self.n, self.path, " -> " + self.path2 if self.path2 else "")


def _norm(p):
    """// and . and .. go (the spellings that are used never have .. after a link)"""
    return os.path.normpath(p).replace("//", "/") if "//" in p or "/." in p else p


def _unq(b):
    if b"%" not in b:
        return os.fsdecode(b)
    o, i = bytearray(), 0
    while i < len(b):
        if b[i:i + 1] == b"%":
            o.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            o.append(b[i])
            i += 1
    return os.fsdecode(bytes(o))


def is_build(n):
    return n.endswith(".tar.zst")


def is_patch(n):
    return n.endswith(".patch.zst")


def is_artefact(n):
    return is_build(n) or is_patch(n)


def patch_name(a, b):
    return "%s%s%s.patch.zst" % (a, "---" if "-" in a or "-" in b else "-", b)


class DirRemote:
    kind = "dir"

    def __init__(self, path):
        self.path = path
        os.mkdir(path)
        self.url = path

    def put(self, name, data):
        write(os.path.join(self.path, name), data)

    def get(self, name):
        return read(os.path.join(self.path, name))

    def delete(self, name):
        os.unlink(os.path.join(self.path, name))

    def files(self):
        return files(self.path)

    def fetched(self, res):
        """names opened for reading below the remote, in order, without repeats"""
        out = []
        for e in res.events:
            if e.cls == "R" and e.op == "openr" and (os.path.dirname(e.path) == self.path or os.path.realpath(os.path.dirname(e.path)) == self.path):
                n = os.path.basename(e.path)
                if n not in out:
                    out.append(n)
        return out

    def written(self, res):
        """final names written below the remote by this command"""
        out = []
        for e in res.events:
            if e.cls == "M" and e.op in ("openw", "write", "rename", "link", "unlink", "symlink", "truncate", "mkdir", "rmdir"):
                p = e.path2 if e.op in ("rename", "link") else e.path
                if (p.startswith(self.path + "/") or os.path.realpath(os.path.dirname(p)) == self.path) and os.path.basename(p) not in out:
                    out.append(os.path.basename(p))
        return out


class S3Remote:
    kind = "s3"

    def __init__(self, srv, prefix="st/ore", url=None):
        self.srv = srv
        self.prefix = prefix.strip("/")
        self.url = url or "s3://%s.localhost/%s" % (srv.bucket, prefix)

    def key(self, name):
        return (self.prefix + "/" if self.prefix else "") + name

    def put(self, name, data):
        with self.srv.mu:
            self.srv.objects[self.key(name)] = bytes(data)

    def get(self, name):
        return self.srv.objects.get(self.key(name))

    def delete(self, name):
        self.srv.objects.pop(self.key(name))

    def files(self):
        pre = self.prefix + "/" if self.prefix else ""
        return {k[len(pre):]: v for k, v in self.srv.objects.items() if k.startswith(pre) and "/" not in k[len(pre):]}

    def fetched(self, res):
        out = []
        for r in res.requests:
            if r["kind"] == "GET":
                n = r["key"].rsplit("/", 1)[-1]
                if n not in out:
                    out.append(n)
        return out

    def written(self, res):
        return [r["key"].rsplit("/", 1)[-1] for r in res.requests if r["kind"] in ("PUT", "DELETE", "POST")]


def write(path, data, mode=None):
    with open(path, "wb") as f:
        f.write(data)
    if mode is not None:
        os.chmod(path, mode)


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def files(d):
    """name -> bytes of the regular files directly in d"""
    out = {}
    for e in os.scandir(d):
        if e.is_file(follow_symlinks=False):
            b = read(e.path)
            if b is not None:
                out[e.name] = b
    return out


def tree(top, content=True):
    """everything below top: relative path -> description"""
    out = {}
    btop = os.fsencode(top)
    stack = [b""]
    while stack:
        rel = stack.pop()
        for e in os.scandir(os.path.join(btop, rel)):
            r = os.path.join(rel, e.name)
            st = e.stat(follow_symlinks=False)
            m = stat.S_IMODE(st.st_mode)
            if e.is_symlink():
                out[r] = ("link", os.readlink(e.path))
            elif e.is_dir(follow_symlinks=False):
                out[r] = ("dir", m)
                stack.append(r)
            elif stat.S_ISREG(st.st_mode):
                with open(e.path, "rb") as f:
                    out[r] = ("file", m, st.st_mtime_ns, f.read()) if content else ("file", m, st.st_mtime_ns)
            else:
                out[r] = ("special", stat.S_IFMT(st.st_mode), m)
    return out


def diff(a, b, ignore=lambda p: False):
    """first differences between two tree() results"""
    out = []
    for k in sorted(set(a) | set(b)):
        if ignore(k):
            continue
        if k not in a:
            out.append("new %r" % k)
        elif k not in b:
            out.append("gone %r" % k)
        elif a[k] != b[k]:
            x, y = a[k], b[k]
            if x[0] == "file" and y[0] == "file":
                w = [n for n, i in (("mode", 1), ("mtime", 2), ("content", 3)) if x[i] != y[i]]
                out.append("changed %r (%s)" % (k, ", ".join(w)))
            else:
                out.append("changed %r %r -> %r" % (k, x[:2], y[:2]))
    return out


class World:
    def __init__(self, binary, desc, obs, extra):
        self.bin, self.desc, self.obs, self.extra = binary, desc, obs, extra
        self.rng = random.Random(desc.get("seed"))
        base = tempfile.mkdtemp(prefix="vf-")
        self.base = os.path.realpath(base)
        self.root = os.path.join(self.base, "w")
        self.ctl = os.path.join(self.base, "ctl")   # logs: outside the watched tree
        os.mkdir(self.root)
        os.mkdir(self.ctl)
        for d in ("local", "tmp", "src", "cwd", "home"):
            os.mkdir(os.path.join(self.root, d))
        self.local = os.path.join(self.root, "local")
        self.src = os.path.join(self.root, "src")
        self.tmp = os.path.join(self.root, "tmp")
        self.nlog = 0
        self.remote = None
        self.srv = None
        self.level = random.Random("level %s" % desc.get("seed")).choice(["1"] * 30 + ["0", "-5", "2", "3", "5", "9", None, "14", "", "x"])
        # with each store, source and temporary directory on a file system of its own?
        self.xdev = random.Random("xdev %s" % desc.get("seed")).random() < .3
        self.judged = {}       # artefacts found right before: name -> what it was judged by

    # -- set-up
    def use_dir(self, name="remote"):
        self.remote = DirRemote(os.path.join(self.root, name))
        return self.remote

    def use_s3(self, prefix="st/ore", url=None):
        self.srv = s3server()
        self.remote = S3Remote(self.srv, prefix, url)
        return self.remote

    def use(self, kind):
        return self.use_s3() if kind == "s3" else self.use_dir()

    def machine(self, name):
        p = os.path.join(self.root, name)
        os.mkdir(p)
        return p

    def close(self):
        # scratch trees may contain unreadable directories
        def onerr(f, p, e):
            try:
                os.chmod(os.path.dirname(p), 0o700)
                os.chmod(p, 0o700)
                f(p)
            except OSError:
                pass
        shutil.rmtree(self.base, onerror=onerr)

    # -- running
    def env(self, extra=None, shim=None, log=None):
        e = {"PATH": "/usr/bin:/bin", "HOME": os.path.join(self.root, "home"), "TMPDIR": self.tmp, "LANG": "C.UTF-8",
             "RUST_BACKTRACE": "0", "LD_PRELOAD": core.SHIM, "VF_ROOTS": self.root, "VF_CAGE": self.base, "GIT_CONFIG_NOSYSTEM": "1"}
        if self.level is not None:
            e["ARTEFACTA_COMPRESSION_LEVEL"] = self.level
        if self.xdev:
            e["VF_XDEV"] = self.root
        if log:
            e["VF_LOG"] = log
        if self.srv:
            e.update(VF_PORT=str(self.srv.port), SSL_CERT_FILE=self.srv.ca, AWS_ACCESS_KEY_ID="k", AWS_SECRET_ACCESS_KEY="s")
        for k, v in (shim or {}).items():
            e["VF_" + k.upper()] = str(v)
        for k, v in (extra or {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        return e

    def start(self, *args, local=None, remote=None, shim=None, env=None, cwd=None, opts=None, binary=None, umask=-1, fds=None, limits=None, stdin=None, keep=()):
        self.nlog += 1
        log = os.path.join(self.ctl, "log%d" % self.nlog)
        argv = [binary or self.bin]
        argv += opts if opts is not None else ["--local", local or self.local, "--remote", remote or self.remote.url]
        argv += list(args)
        mark = len(self.srv.log) if self.srv else 0
        out = open(os.path.join(self.ctl, "out%d" % self.nlog), "w+b")
        err = open(os.path.join(self.ctl, "err%d" % self.nlog), "w+b")
        def pre():      # fds: descriptor -> path to open instead, or None to close it
            for n, to in (fds or {}).items():
                if to is None:
                    os.close(n)
                    continue
                f = os.open(to, os.O_RDWR)
                if f == n:
                    os.set_inheritable(n, True)
                else:
                    os.dup2(f, n)
                    os.close(f)
            for what, n in (limits or {}).items():
                resource.setrlimit(getattr(resource, "RLIMIT_" + what), (n, n))
        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL if stdin is None else stdin, stdout=out, stderr=err, preexec_fn=pre if fds or limits else None, pass_fds=keep, cwd=cwd or os.path.join(self.root, "cwd"),
                             env=self.env(env, shim, log), umask=umask)
        return (p, argv, log, out, err, mark)

    def finish(self, h, timeout=120):
        p, argv, log, out, err, mark = h
        usage = None
        done = True
        try:
            if p.returncode is None:
                fd = os.pidfd_open(p.pid)      # p.wait(timeout) would poll
                try:
                    done = select.select([fd], [], [], timeout)[0]
                finally:
                    os.close(fd)
                if not done:
                    p.kill()
                _, st, usage = os.wait4(p.pid, 0)
                p.returncode = os.waitstatus_to_exitcode(st)
        except (ChildProcessError, ProcessLookupError):
            # another thread has waited for it at the same time, but may not have noted the status yet
            for _ in range(1000):
                if p.returncode is not None:
                    break
                time.sleep(.01)
            p.wait()
        if not done:
            raise Inconclusive("time-out: %r" % (argv,))
        bufs = []
        for f in (out, err):
            f.seek(0)
            bufs.append(f.read())
            f.close()
        evs = []
        if os.path.exists(log):
            with open(log, "rb") as f:
                evs = [Ev(l) for l in f if l.endswith(b"\n")]
            os.unlink(log)
        r = Res(argv[1:], p.returncode, bufs[0], bufs[1], evs)
        r.usage = usage
        r.requests = self.srv.log[mark:] if self.srv else []
        for e in evs:
            if e.cls == "X":
                raise Violation("tried to change %r (%s), which is none of its business: %s" % (e.path, e.op, r))
        self.obs.count("commands")
        self.obs.count("fs_events", len(evs))
        if r.requests:
            self.obs.count("s3_requests", len(r.requests))
        return r

    def run(self, *args, timeout=120, **kw):
        return self.finish(self.start(*args, **kw), timeout)

    def ok(self, *args, **kw):
        """A command that this property needs to succeed."""
        r = self.run(*args, **kw)
        if not r.ok:
            raise Violation("command failed although it should succeed: %s" % r)
        return r

    # -- stores
    def put_local(self, name, data, local=None):
        write(os.path.join(local or self.local, name), data)

    def lfiles(self, local=None):
        return files(local or self.local)

    def current(self, local=None):
        try:
            return os.readlink(os.path.join(local or self.local, "current"))
        except OSError:
            return None

    def save(self):
        return self.tree(), (dict(self.srv.objects) if self.srv else None)

    def tree(self):
        return tree(self.root)

    def restore(self, saved):
        """puts the whole scratch tree back (contents, modes, times, links)"""
        t, objs = saved
        now = tree(self.root)
        broot = os.fsencode(self.root)
        for k in sorted(now, key=len, reverse=True):
            if t.get(k) != now[k] and not (now[k][0] == "dir" and k in t and t[k][0] == "dir"):
                p = os.path.join(broot, k)
                if now[k][0] == "dir":
                    shutil.rmtree(p)
                elif os.path.lexists(p):
                    os.unlink(p)
        for k in sorted(t, key=len):
            p = os.path.join(broot, k)
            d = t[k]
            if os.path.lexists(p):
                continue
            if d[0] == "dir":
                os.mkdir(p, d[1])
            elif d[0] == "link":
                os.symlink(d[1], p)
            elif d[0] == "file":
                with open(p, "wb") as f:
                    f.write(d[3])
                os.chmod(p, d[1])
                os.utime(p, ns=(d[2], d[2]))
        if objs is not None:
            with self.srv.mu:
                self.srv.objects = dict(objs)

    # -- oracles shared by several properties
    def check_artefacts(self, store, truth, what, allow_unknown=()):
        """Every build/patch name in `store` (name -> bytes) must be complete and right.
        truth: version -> content."""
        n = 0
        for name, data in store.items():
            if not is_artefact(name) or name in allow_unknown:
                continue
            n += 1
            if is_build(name):
                v = name[:-len(".tar.zst")]
                if v not in truth:
                    raise Violation("%s: unexpected build %r" % (what, name))
                if self.judged.get(name) == (data, truth[v]):
                    continue
                c = zs.try_decompress(data)
                if c is None:
                    raise Violation("%s: build %r is not a complete archive (%d bytes)" % (what, name, len(data)))
                if c != truth[v]:
                    raise Violation("%s: build %r has wrong content (%d bytes instead of %d)" % (what, name, len(c), len(truth[v])))
                self.judged[name] = (data, truth[v])
            else:
                self.check_patch(name, data, truth, what)
        self.obs.count("artefacts_checked", n)
        return n

    def check_patch(self, name, data, truth, what):
        base = name[:-len(".patch.zst")]
        pairs = [(a, b) for a in truth for b in truth if patch_name(a, b) == name]
        if not pairs:
            raise Violation("%s: patch %r does not belong to any pair of versions" % (what, name))
        a, b = pairs[0]
        if self.judged.get(name) == (data, truth[a], truth[b]):
            return
        raw = zs.try_decompress(data)
        if raw is None:
            raise Violation("%s: patch %r is not complete" % (what, name))
        try:
            got = bpatch.apply(raw, truth[a])
        except bpatch.BadPatch as e:
            raise Violation("%s: patch %r cannot be decoded: %s" % (what, name, e))
        if got != truth[b]:
            raise Violation("%s: patch %r yields wrong content" % (what, name))
        self.judged[name] = (data, truth[a], truth[b])

    def check_current(self, version, local=None, what="after install"):
        local = local or self.local
        t = self.current(local)
        if t is None:
            raise Violation("%s: `current` is missing or not a link" % what)
        want = os.path.join(os.path.realpath(local), version + ".tar.zst")
        if os.path.realpath(os.path.join(local, t)) != want or not os.path.isfile(want):
            raise Violation("%s: `current` leads to %r instead of %r" % (what, t, want))

    def stray(self, local=None):
        """files in a store that are neither artefacts nor `current`"""
        return sorted(n for n in os.listdir(local or self.local) if not is_artefact(n) and n != "current")


# ---------------------------------------------------------------- generators

def some_bytes(rng, n, alpha=None):
    if alpha is None:
        return rng.randbytes(n)
    return bytes(rng.choices(alpha, k=n))


def content(rng, size=None):
    """content of a build: noise, text-like, repetitive or a mixture"""
    n = size if size is not None else rng.choice([1, 7, 64, 300, 1024, 1024, 4000, 20000])
    k = rng.randrange(4)
    if k == 0:
        return rng.randbytes(n)
    if k == 1:
        return some_bytes(rng, n, b"abcdefgh \n")
    if k == 2:
        u = rng.randbytes(rng.randint(1, 40))
        return (u * (n // len(u) + 1))[:n]
    b = bytearray(rng.randbytes(n))
    for _ in range(3):
        i = rng.randrange(n)
        j = rng.randint(i, n)
        b[i:j] = bytes(j - i)
    return bytes(b)


def mutate(rng, b, edits=None):
    """a related content: inserts, deletes, moves, changes"""
    b = bytearray(b)
    for _ in range(edits or rng.randint(1, 5)):
        i = rng.randint(0, len(b))
        j = min(len(b), i + rng.choice([1, 3, 16, 100]))
        k = rng.randrange(5)
        if k == 0:
            b[i:i] = rng.randbytes(rng.choice([1, 5, 64, 500]))
        elif k == 1:
            del b[i:j]
        elif k == 2:
            b[i:j] = rng.randbytes(j - i)
        elif k == 3:
            x = bytes(b[i:j])
            del b[i:j]
            p = rng.randint(0, len(b))
            b[p:p] = x
        else:
            for p in range(i, j):
                b[p] = (b[p] + 1) & 255
    return bytes(b) or b"\x01"


NAMES = ["1", "2", "10", "9", "a", "b", "z", "v1.2.3", "v1.2.10", "v1.10.0", "il40.2.19", "build1", "build2", "build10",
         "m-1", "m-2", "m-10", "mod-v1.0-rc.1", "zz-top", "A", "B", "0", "rel 1", "x_y", "20200629", "v2~b", "1.0+x", "é", "日本"]


# names that a careless comparison takes for the same one
TWINS = [("1", "1.0"), ("1", "01"), ("a", "A"), ("v1.2.3", "1.2.3"), ("x_y", "x.y"), ("é", "e\u0301"), ("build1", "build01"), ("1.0+x", "1.0"),
         ("v1.2.3", "v1.2.3-rc"), ("10", "1"), ("1.0", "1.0.0"), ("il40.2.19", "il40.2.1")]


def names(rng, k):
    ns = rng.sample(NAMES, k)
    if k > 1 and rng.random() < .2:
        t = list(rng.choice(TWINS))
        rng.shuffle(t)
        ns = t + [n for n in ns if n not in t][:k - 2]
        rng.shuffle(ns)
    return ns
