"""Random source trees for packaging."""
import os, socket, stat

ODD = [b"a b", b"-rf", b"--", b"new\nline", b"tab\t", b"q'uote\"", b"back\\slash", b"*", b"$HOME", b"%41", b"caf\xc3\xa9", b"\xe6\x97\xa5\xe6\x9c\xac",
       b"bad\xff\xfe", b"\x80", b".hidden", b"..dots..", b"x.tar.zst", b"y.patch", b"end.", b"CON", b"a", b"b", b"A", b"B", b"a.b", b"a-b", b"a0", b"a!",
       b"lib", b"Lib", b"._x.part", b"current", b"\x01ctl", b"0", b"10", b"9", b"z" * 99, b"y" * 100, b"x" * 101, b"w" * 200, b"v" * 255,
       b"a~", b"#a#", b".#a", b"a.bak", b"a.swp", b".git", b".gitignore", b".DS_Store", b"Thumbs.db", b"CVS", b".svn", b"node_modules", b"target", b"core", b"a.o", b"a.pyc",
       b".ignore", b"._a", b"a.tmp", b"a.part", b".nfs1", b"lost+found", b"a.patch.zst", b"\x81", b"\x80.b", b"\x81.b", b"\xff", b"\xfe", b"a:b", b"a\xcc\x88", b"\xc3\xa4"]
SIZES = [0, 0, 1, 2, 100, 511, 512, 513, 1023, 1024, 1025, 5000, 8191, 8192, 8193, 10240, 20000]
MODES = [0o644, 0o755, 0o600, 0o444, 0o555, 0o400, 0o777, 0o000, 0o4755, 0o2755, 0o1644, 0o7777, 0o111, 0o222]


def gen(rng, big=False, nonutf8=True, maxfiles=12, depth=4):
    """relative path (bytes) -> (mode, content); directories are implied"""
    t = {}
    dirs = [b""]
    for _ in range(rng.randint(0, 6)):
        p = rng.choice(dirs)
        n = rng.choice(ODD)
        if not nonutf8 and not ok(n):
            continue
        d = os.path.join(p, n)
        if d.count(b"/") < depth and d not in dirs and len(d) < 700:
            dirs.append(d)
    for _ in range(rng.randint(0 if rng.random() < .1 else 1, maxfiles)):
        n = rng.choice(ODD) if rng.random() < .75 else b"f%d" % rng.randrange(1000)
        if not nonutf8 and not ok(n):
            continue
        p = os.path.join(rng.choice(dirs), n)
        if p in dirs or p in t or any(x.startswith(p + b"/") for x in dirs):
            continue
        size = rng.choice(SIZES)
        if big and rng.random() < .3:
            size = rng.choice([131071, 131072, 131073, 300000, 2500000])
        body = rng.randbytes(size) if rng.random() < .6 else (b"text line %d\n" % rng.randrange(10) * (size // 8 + 1))[:size]
        if rng.random() < .08:      # zeros, which make takes for holes
            size = rng.choice([1, 512, 4096, 8192, 20000, 50000])
            body = rng.choice([b"", body]) + bytes(size) + rng.choice([b"", b"", body, bytes(9000) + body])
        t[p] = (rng.choice(MODES) if rng.random() < .6 else rng.randrange(0o10000), body)
    return t


def ok(n):
    try:
        n.decode()
        return True
    except UnicodeDecodeError:
        return False


def make(top, t, order=None, rng=None, mtime=None, owner=None):
    top = os.fsencode(top)
    os.makedirs(top, exist_ok=True)
    keys = order or sorted(t)
    for p in keys:
        mode, body = t[p]
        f = os.path.join(top, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fh:       # blocks of zeros become holes
            for i in range(0, len(body), 4096):
                b = body[i:i + 4096]
                if b.count(0) == len(b):
                    fh.seek(len(b), 1)
                else:
                    fh.write(b)
            fh.truncate(len(body))
        if owner:
            os.chown(f, *owner())
        os.chmod(f, mode)
        if mtime:
            m = mtime()
            os.utime(f, (m, m))


def extras(rng, top, t):
    """things that are not regular files"""
    top = os.fsencode(top)
    n = 0
    ds = [top] + [d for d, _, _ in os.walk(top)]
    for i in range(rng.randint(0, 5)):
        d = rng.choice(ds)
        p = os.path.join(d, b"extra%d" % i)
        k = rng.randrange(7)
        if k == 0:
            os.symlink(b"nowhere", p)
        elif k == 1:
            os.symlink(top, p)
        elif k == 2 and t:
            os.symlink(os.path.join(top, rng.choice(sorted(t))), p)
        elif k == 3:
            os.mkdir(p)
        elif k == 4:
            os.mkfifo(p)
        elif k == 5:
            os.symlink(b"extra%d" % i, p)
        elif len(p) < 100:
            s = socket.socket(socket.AF_UNIX)
            s.bind(p)
            s.close()
        else:
            continue
        n += 1
    return n
