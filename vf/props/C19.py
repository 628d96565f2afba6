import re, struct
import ops, s3 as s3mod
from world import *

LEVEL = "exploration"
ASAN = True
RULE = ("Hostile inputs of ten families (bytes of builds; bytes of patches; S3 listings; S3 answers; arguments; environment; git repositories; sources; store contents; version names) made by structure-aware "
        "forging (patch controls with extreme lengths and seeks, overlong integers, zstd frames of all versions with forged headers, XML with extreme values) and by mutation of valid "
        "inputs are given to every command that reads them, on the normal build (dependencies with overflow checks and assertions) and on an AddressSanitizer build that covers the native "
        "decompressor and git library (the thorough tier adds a ThreadSanitizer build with an instrumented standard library); the monitor checks that the process ends by itself with status 0, 1 or 2 and that neither a panic nor a sanitizer report appears. "
        "Distinct by family, kind of forgery, command, build, outcome and error message class.")
ASSUMPTIONS = ["decompression bombs and endless listings are out of domain", "a command counts as hanging after 60 s, repeated once with 200 s"]
EXT = [0, 1, 2, 127, 128, 255, 4095, 4096, 4097, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
FAM = ["patch", "patch", "patch", "build", "build", "listing", "listing", "answer", "args", "env", "git", "source", "names", "versions"]


def cases(tier, rng):
    n = 26 if tier == "quick" else 700
    cs = []
    for i in range(n):
        for j, f in enumerate(FAM):
            cs.append(dict(fam=f, asan="tsan" if tier == "thorough" and (i + j) % 5 == 2 else (i + j) % 5 == 0, i=i))
    return [dict(fam="known", asan=False, i=i) for i in range(4)] + [dict(fam="etags", asan=False, i=i) for i in range(len(ETAGS))] + [dict(fam="fixed", asan=False, i=i) for i in range(8)] + cs


KNOWN = {k["signature"] for k in core.load_known() if k["property"] == "C19" and k["status"] == "known"}
HANG = "hang: S3 listing that is not well-formed XML"
HANG_GIT = "hang: damaged loose git object"


class Judge:
    def __init__(self, d, w, obs):
        self.d, self.w, self.obs = d, w, obs
        self.asan = d["asan"]

    def __call__(self, kind, *args, cmd=None, hangs=None, **kw):
        """hangs: the listed finding that this input belongs to, of which a command may not end"""
        w, obs = self.w, self.obs
        if w.rng.random() < .4 and "RUST_LOG" not in (kw.get("env") or {}):      # what only logging computes
            kw["env"] = dict(kw.get("env") or {}, RUST_LOG="artefacta=trace")
        if self.asan:
            e = dict(kw.pop("env", None) or {})
            e.setdefault("LD_PRELOAD", os.path.join(core.LIB, "netshim.so"))
            e["ASAN_OPTIONS"] = "detect_leaks=0:verify_asan_link_order=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
            kw["env"] = e
            e["TSAN_OPTIONS"] = "exitcode=99:suppressions=%s" % os.path.join(core.VERIF, "vf/tsan.supp") + os.environ.get("VF_TSAN", "")
            kw["binary"] = w.extra["tsan" if self.asan == "tsan" else "asan"]
        try:
            r = w.run(*args, timeout=2.5 if hangs in KNOWN else 60, **kw)
        except Inconclusive:
            obs.count("slow_commands")
            if hangs in KNOWN:
                obs.known.add(hangs)
                return None
            if os.environ.get("VF_SLOW"):
                print("SLOW", kind, self.d, args[:3], flush=True)
            try:
                r = w.run(*args, timeout=200, **kw)
            except Inconclusive as e:
                raise Violation("%s (%s): the command does not end: %s" % (kind, self.d["fam"], e), hangs)
        txt = r.err + r.out
        name = cmd or (args[0] if args else "")
        obs.count("commands_judged")
        obs.count("tsan_commands" if self.asan == "tsan" else "asan_commands" if self.asan else "normal_commands")
        obs.count("ended_with_%d" % r.rc)
        obs.count("inputs_" + self.d["fam"])
        if r.rc not in (0, 1, 2) or b"AddressSanitizer" in txt or b"ThreadSanitizer" in txt or b"panicked" in txt or b"runtime error:" in txt:
            t = txt.decode(errors="replace")
            sig = None
            m = re.search(r"registry/src/[^/]*/(\S+\.rs)\x1b\S*?:\x1b\S*?m(\d+)\x1b", t) if r.rc == 101 else None
            if m:
                sig = "panic at %s:%s" % m.groups()
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", t)
            if m:
                fr = re.findall(r"#\d+ 0x\w+ in (\w+) ", t)
                sig = "asan %s in %s" % (m.group(1), next((f for f in fr if "asan" not in f and not f.startswith(("mem", "str"))), "?"))
            if sig in KNOWN:
                obs.known.add(sig)
                obs.key(self.d["fam"], kind, name, self.asan, sig)
                return r
            raise Violation("%s (%s, %s build) [%s]: %s" % (kind, self.d["fam"], "ThreadSanitizer" if self.asan == "tsan" else "AddressSanitizer" if self.asan else "normal", sig, r if not self.asan else str(r)[:300] + t[:1500]), sig)
        obs.key(self.d["fam"], kind, name, self.asan, r.rc, klass(r))
        return r


def well_formed(b):
    import xml.parsers.expat
    try:
        xml.parsers.expat.ParserCreate().Parse(b, True)
        return True
    except (xml.parsers.expat.ExpatError, ValueError, LookupError):
        return False


def klass(r):
    """the error message without its variable parts"""
    ls = [l for l in r.err.decode(errors="replace").splitlines() if ": \x1b[" in l or l.lstrip()[:3] in ("0: ", "1: ", "2: ", "3: ", "4: ", "5: ")]
    out = []
    for l in ls[:6]:
        q, keep = False, []
        for ch in l:
            if ch in "`\"'":
                q = not q
            elif not q and not ch.isdigit():
                keep.append(ch)
        out.append("".join(keep)[:50])
    return out


# ---------------------------------------------------------------- forging

def mutbytes(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        if not b:
            b += rng.randbytes(3)
        i = rng.randrange(len(b))
        k = rng.randrange(9)
        if k == 0:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[i] = rng.choice([0, 255, 127, 128])
        elif k == 2:
            del b[i:]
        elif k == 3:
            del b[i:i + rng.choice([1, 2, 4, 30])]
        elif k == 4:
            b[i:i] = rng.randbytes(rng.choice([1, 4, 40]))
        elif k == 5:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.choice([4, 50, 400])]
        elif k == 6:
            b[i:i + 8] = struct.pack("<Q", rng.choice(EXT))
        elif k == 7:
            n = rng.choice([4, 40])
            b[i:i + n] = bytes([rng.choice([0, 255])]) * n
        else:
            b[i:i + 4] = struct.pack("<I", rng.choice(EXT) & 0xffffffff)
    return bytes(b)


def leb(rng, n):
    """a variable-length integer: plain, padded, or overlong"""
    v = bpatch.uvar(n)
    k = rng.randrange(8)
    if k == 0:
        return v[:-1] + bytes([v[-1] | 128]) + b"\x80" * rng.choice([0, 1, 3]) + b"\0"
    if k == 1:
        return rng.choice([b"\xff", b"\x80"]) * rng.choice([9, 10, 11, 12, 40]) + bytes([rng.choice([0, 1, 2, 127])])
    return v


def forged_patch(rng, old, new):
    """(kind, uncompressed bytes)"""
    k = rng.choice(["controls", "controls", "controls", "mutated", "mutated", "noise", "header", "short", "cutvarint"])
    good = bpatch.encode(old, new, rng, rng.randint(1, 5))
    if k == "mutated":
        return k, good[:8] + mutbytes(rng, good[8:])
    if k == "noise":
        return k, bpatch.MAGIC + rng.randbytes(rng.choice([1, 9, 100, 5000]))
    if k == "header":
        return k, rng.choice([rng.randbytes(8), b"\xdf\xb1\0\0" + rng.randbytes(4), bpatch.MAGIC[4:] + bpatch.MAGIC[:4]]) + good[8:]
    if k == "short":
        return k, good[:rng.randrange(0, 12)]
    if k == "cutvarint":
        return k, good + b"\x80" * rng.randint(1, 11)
    o = bytearray(bpatch.MAGIC)
    for _ in range(rng.choice([1, 2, 3, 20])):
        L = [rng.choice(EXT + [len(old), len(old) + 1, len(old) - 1]), rng.choice(EXT), rng.choice(EXT)]
        real = rng.choice([True, True, False])
        n = min(L[0], 6000) if real else rng.choice([0, 1, 50])
        o += leb(rng, n if real and rng.random() < .5 else L[0]) + rng.randbytes(n)
        n = min(L[1], 6000)
        o += leb(rng, n if rng.random() < .6 else L[1]) + rng.randbytes(n)
        z = L[2]
        if rng.random() < .5:
            z = rng.choice([-len(old), len(old), -1, 1, -2 ** 63, 2 ** 63 - 1, -2 ** 62, 2 ** 62, -n, 5])
            o += bpatch.svar(z)[:10]
        else:
            o += leb(rng, z)
    return k, bytes(o)


MAGICS = [0xFD2FB528, 0xFD2FB527, 0xFD2FB526, 0xFD2FB525, 0xFD2FB524, 0xFD2FB523, 0xFD2FB522, 0xFD2FB51E, 0x1EB52FFD, 0x184D2A50, 0x184D2A5F, 0xEC30A437]


def forged_zst(rng, plain):
    """(kind, bytes) of a compressed file"""
    k = rng.choice(["noise", "truncated", "mutated", "mutated", "mutated", "header", "frame", "skippable", "concat", "trailing", "plain", "blocks", "tiny"])
    z = zs.compress(plain, rng.choice([1, 3, 9, 19]))
    if k == "noise":
        z = rng.randbytes(rng.choice([1, 3, 4, 5, 30, 3000]))
    elif k == "truncated":
        z = z[:rng.randrange(len(z))] or z[:1]
    elif k == "mutated":
        z = mutbytes(rng, z) or b"\0"
    elif k == "header":
        z = struct.pack("<I", rng.choice(MAGICS)) + rng.randbytes(rng.choice([1, 2, 6, 14])) + z[6:]
    elif k == "frame":      # right magic number, any descriptor and window
        z = struct.pack("<IBB", 0xFD2FB528, rng.randrange(256), rng.randrange(256)) + rng.choice([b"\xff" * 12, rng.randbytes(12), b"\0" * 12]) + z[4:]
    elif k == "skippable":
        z = struct.pack("<II", 0x184D2A50 + rng.randrange(16), rng.choice([0, 1, len(z), 2 ** 31, 2 ** 32 - 1])) + z
    elif k == "concat":
        z = z + mutbytes(rng, z)
    elif k == "trailing":
        z = z + rng.randbytes(rng.choice([1, 3, 5, 100]))
    elif k == "plain":
        z = plain or b"x"
    elif k == "tiny":
        z = zs.compress(rng.choice([b"", b"", b"\0", b"ab"]))
    else:                   # frame of forged blocks: raw, repeated, compressed, reserved
        o = bytearray(struct.pack("<IBB", 0xFD2FB528, 0, rng.choice([0, 8, 80, 88])))
        for _ in range(rng.randint(1, 6)):
            t, n = rng.randrange(4), rng.choice([0, 1, 2, 50, 1000, 2 ** 17, 2 ** 21 - 1])
            o += struct.pack("<I", (n << 3 | t << 1 | (rng.random() < .3)))[:3] + rng.randbytes(1 if t == 1 else min(n, 600))
        z = bytes(o)
    return k, z


# ---------------------------------------------------------------- families

def run(d, w, obs):
    j = Judge(d, w, obs)
    globals()["f_" + d["fam"]](d, w, w.rng, j)
    obs.sample = dict(family=d["fam"], asan=d["asan"])


def clear(w):
    for s in (w.local, getattr(w.remote, "path", None)):
        if s:
            for n in os.listdir(s):
                os.unlink(os.path.join(s, n))
    if w.srv:
        w.srv.objects.clear()


def f_known(d, w, rng, j):
    """one input for each listed finding (the monitors judge them like any other)"""
    a, b = "1.0", "1.1"
    c = content(rng, 300)
    if d["i"] == 0:
        w.use_s3()
        head = '<?xml version="1.0" encoding="UTF-8"?>\n<ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/">'
        item = "<Contents><Key>%s</Key><Size>%%s</Size></Contents>" % w.remote.key(b + ".tar.zst")
        for body, h in ((item % "x", None), ("<IsTruncated>x</IsTruncated>", None), ("<KeyCount>x</KeyCount>", None), ("<MaxKeys>x</MaxKeys>", None), ("<Contents><Key", HANG)):
            w.srv.hook = lambda r: s3mod.Answer(200, (head + body + (item % 5 if not h else "") + ("" if h else "</ListBucketResult>")).encode(), {"Content-Type": "application/xml"}) if r["kind"] == "LIST" else None
            j("known", "install", b, hangs=h)
    elif d["i"] == 1:
        w.use_s3()
        w.remote.put(b + ".tar.zst", zs.compress(c))
        for h, v in (("x-amz-server-side-encryption-bucket-key-enabled", "x"), ("Content-Length", "9223372036854775808"), ("x-amz-delete-marker", "x"), ("x-amz-missing-meta", "x"), ("x-amz-mp-parts-count", "x"), ("x-amz-tagging-count", "x"), ("x-any", "\xe9\xff")):
            w.srv.hook = lambda r: s3mod.Answer(200, zs.compress(c), {"ETag": s3mod.etag(zs.compress(c)), h: v}, cut=len(zs.compress(c))) if r["kind"] == "GET" else None
            j("known", "install", b)
        w.put_local(a + ".tar.zst", zs.compress(c))
        w.srv.hook = lambda r: s3mod.Answer(200, b"", {"ETag": s3mod.etag(r["body"]), "x-amz-server-side-encryption-bucket-key-enabled": "x"}) if r["kind"] == "PUT" else None
        j("known", "sync")
    elif d["i"] == 2:
        import zlib, hashlib
        w.use("dir")
        w.put_local(a + ".tar.zst", zs.compress(c))
        w.put_local(b + ".tar.zst", zs.compress(c))
        for z, asan in ((zlib.compress(b"commit 4000\0" + rng.randbytes(4000))[:30], False), (zlib.compress(b"commit 0\0" + b"tree " + b"0" * 300), True)):
            repo = repo_with(w, rng, [a, b])
            h = hashlib.sha1(z).hexdigest()
            p = os.path.join(repo, ".git", "objects", h[:2])
            os.makedirs(p, exist_ok=True)
            write(os.path.join(p, h[2:]), z)
            write(os.path.join(repo, ".git/refs/tags", a), h.encode() + b"\n")
            j.asan = asan
            j("known", "auto-patch", "--repo-root", repo, b, hangs=None if asan else HANG_GIT)
    else:
        w.use("dir")
        j("known", "sync", "--nope", b"a\xff")
        j("known", "sync", b"--a\xff")


def f_patch(d, w, rng, j):
    """hostile patches, each offered to an install"""
    w.use("s3" if d["i"] % 4 == 0 else "dir")
    for _ in range(5):
        clear(w)
        a, b = names(rng, 2)
        old = content(rng, rng.choice([0, 1, 64, 4096, 4097, 9000]) or 1)
        new = mutate(rng, old)
        w.put_local(a + ".tar.zst", zs.compress(old))
        os.symlink(a + ".tar.zst", os.path.join(w.local, "current"))
        if rng.random() < .8:
            k, p = forged_patch(rng, old, new)
            z = zs.compress(p)
        else:
            k, z = forged_zst(rng, bpatch.encode(old, new, rng, 3))
            k = "zst-" + k
        z = z or b"\0"
        w.remote.put(b + ".tar.zst", zs.compress(new) + zs.skippable(max(8, 3 * len(z))))
        if rng.random() < .5:
            w.put_local(patch_name(a, b), z)
        else:
            w.remote.put(patch_name(a, b), z)
        j(k, "install", b)
        if rng.random() < .2:
            j(k, "create-patch", a, b)
            j(k, "sync")


def f_build(d, w, rng, j):
    """hostile builds as source or target of patches, of installs, of adds"""
    w.use("s3" if d["i"] % 4 == 0 else "dir")
    for _ in range(4):
        clear(w)
        a, b, c = names(rng, 3)
        old = content(rng, rng.choice([1, 300, 5000, 140000]))
        new = mutate(rng, old)
        k, z = forged_zst(rng, old)
        good = zs.compress(new)
        h, g = rng.choice([(a, b), (b, a)])
        (w.put_local if rng.random() < .6 else w.remote.put)(h + ".tar.zst", z)
        w.remote.put(g + ".tar.zst", good + zs.skippable(9000))
        what = rng.choice(["create", "create", "upgrade", "add", "addcalc", "install", "auto"])
        if what == "create":
            j(k, "create-patch", a, b)
        elif what == "upgrade":
            w.put_local(h + ".tar.zst", z)
            os.symlink(os.path.join(w.local, h + ".tar.zst"), os.path.join(w.local, "current"))
            w.remote.put(patch_name(h, g), zs.compress(bpatch.encode(old, new, rng, 3)))
            j(k, "install", g, cmd="upgrade")
        elif what in ("add", "addcalc"):
            f = os.path.join(w.src, c + ".tar.zst")
            write(f, forged_zst(rng, old)[1])
            j(k, "add", f, *(["--calc-patch-from", rng.choice([a, b])] if what == "addcalc" else []), *rng.choice([[], ["--upload"]]), cmd=what)
        elif what == "install":
            j(k, "install", h)
        else:
            repo = repo_with(w, rng, ["1.0", "1.1"])
            w.put_local("1.0.tar.zst", z if h == a else good)
            w.put_local("1.1.tar.zst", good if h == a else z)
            j(k, "auto-patch", "--repo-root", repo, "1.1")


def repo_with(w, rng, tags):
    r = tempfile.mkdtemp(prefix="repo", dir=w.src)
    ops.git(w, r, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"], *[["tag", t] for t in tags])
    return r


NUM = ["-1", "0", "1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1e3", "", " 7 ", "+7", "0x10", "99999999999999999999999", "NaN", "\u0661", "1.5", "\x01"]


def xml(rng, w, vs):
    """(kind, bytes) of a listing"""
    from xml.sax.saxutils import escape
    pre = w.remote.key("")
    keys = [pre + v + ".tar.zst" for v in vs] + [pre + patch_name(a, b) for a in vs for b in vs if a != b]
    k = rng.choice(["sizes", "sizes", "sizes", "keys", "fields", "truncflag", "mutated", "mutated", "noise", "deep", "entities", "encoding", "nocontents", "empty", "cdata", "attrs", "other", "many"])
    head = '<?xml version="1.0" encoding="UTF-8"?>\n<ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Name>bkt</Name>'
    def item(key, size, extra=""):
        return "<Contents><Key>%s</Key><LastModified>2022-10-12T17:50:00.000Z</LastModified><ETag>&quot;x&quot;</ETag><Size>%s</Size>%s</Contents>" % (escape(key), size, extra)
    items = [item(x, rng.choice([5, 100, 30000])) for x in keys]
    tail = "<IsTruncated>false</IsTruncated></ListBucketResult>"
    if k == "sizes":
        big = rng.choice(NUM[:6] + NUM)
        items = [item(x, rng.choice([big, big, 100, rng.choice(NUM)]) if not x.endswith(".tar.zst") or rng.random() < .6 else big) for x in keys]
    elif k == "keys":
        odd = ["", "/", pre, pre + "/", pre + ".tar.zst", pre + "---.patch.zst", pre + "-.patch.zst", pre + "a---.patch.zst", pre + ".", pre + "..", pre + "../../x.tar.zst", "\u202e.tar.zst", pre + "\u0301.tar.zst",
               pre + "x" * 5000 + ".tar.zst", pre + "-" * 300 + ".patch.zst", pre + "a\nb.tar.zst", pre + "a\\b.tar.zst", "é", pre[:-1], pre + "a//b.tar.zst", pre + "\x7f.tar.zst"]
        items += [item(x, rng.choice([0, 5])) for x in rng.sample(odd, 8)]
        rng.shuffle(items)
    elif k == "fields":
        x = rng.choice(["<Key>", "</Key>", "<Size>", "</Size>", "<Contents>", "</Contents>", "LastModified", "ETag", "?xml", "ListBucketResult"])
        s = head + "".join(items) + tail
        parts = s.split(x)
        i = rng.randrange(1, len(parts)) if len(parts) > 1 else 0
        return k, (x.join(parts[:i]) + rng.choice(["", "<Q>", x + x, "</", "<!-- "]) + x.join(parts[i:])).encode()
    elif k == "truncflag":
        tail = "<IsTruncated>%s</IsTruncated>%s</ListBucketResult>" % (rng.choice(["true", "maybe", "", "1", "TRUE", " true"]), rng.choice(["", "<KeyCount>-5</KeyCount>", "<MaxKeys>999999999999999999999</MaxKeys>"]))
    elif k == "mutated":
        return k, mutbytes(rng, (head + "".join(items) + tail).encode())
    elif k == "noise":
        return k, rng.choice([rng.randbytes(300), b"<" * 1000, b"\0" * 50, b"&" * 100, b"{\"a\":1}", b"<html><body>login</body></html>", b"\xef\xbb\xbf" + (head + tail).encode(), (head + tail).encode("utf-16")])
    elif k == "deep":
        n = rng.choice([100, 20000])
        return k, (head + "<A>" * n + "</A>" * rng.choice([0, n]) + "".join(items) + tail).encode()
    elif k == "entities":
        dtd = '<!DOCTYPE a [<!ENTITY x "yy"><!ENTITY z "&x;&x;&x;">]>'
        return k, (head.replace("?>\n", "?>\n" + dtd) + item(pre + "&z;", 5).replace("&amp;", "&") + item("&nope;", 5).replace("&amp;", "&") + "&#0;&#xFFFFFFFF;" * rng.randint(0, 1) + tail).encode()
    elif k == "encoding":
        return k, head.replace("UTF-8", rng.choice(["latin-1", "UTF-16", "x", ""])).encode() + "".join(items).encode() + b"\xff\xfe\x80" * rng.randint(0, 1) + tail.encode()
    elif k == "nocontents":
        items = ["<Contents/>", "<Contents></Contents>", "<Contents><Key/><Size/></Contents>", "<Contents><Key>a.tar.zst</Key></Contents>", "<Contents><Size>3</Size></Contents>"]
        items = rng.sample(items, 2)
    elif k == "empty":
        return k, b""
    elif k == "cdata":
        items = ["<Contents><Key><![CDATA[%s]]></Key><Size><![CDATA[5]]></Size></Contents>" % (pre + "a.tar.zst"), "<?pi x?>", "<!-- c -->"]
    elif k == "attrs":
        items = [i.replace("<Key>", '<Key a="%s">' % ("b" * rng.choice([1, 70000]))) for i in items]
    elif k == "other":
        return k, rng.choice([b'<?xml version="1.0"?><Error><Code>X</Code></Error>', b"<a/>", b"<ListBucketResult/>", b"<ListBucketResult>text</ListBucketResult>", b'<?xml version="9.9"?><ListBucketResult></ListBucketResult>'])
    elif k == "many":
        items = [item(pre + "v%d.tar.zst" % i, 5) for i in range(3000)]
    return k, (head + "".join(items) + tail).encode("utf-8", "surrogateescape")


def f_listing(d, w, rng, j):
    w.use_s3(rng.choice(["st/ore", "", "p"]))
    hung = d["i"] % 3 > 0      # the listed hang costs time: only meet it now and then
    for _ in range(6):
        clear(w)
        vs = names(rng, rng.randint(2, 4))
        c = content(rng, 500)
        for v in vs:
            c = mutate(rng, c)
            if rng.random() < .4 or v == vs[0]:
                w.put_local(v + ".tar.zst", zs.compress(c))
            w.remote.put(v + ".tar.zst", zs.compress(c))
        if rng.random() < .8:
            os.symlink(vs[0] + ".tar.zst", os.path.join(w.local, "current"))
        k, body = xml(rng, w, vs)
        n = [0]

        def hook(r):
            if r["kind"] == "LIST":
                n[0] += 1
                if n[0] > 20:
                    return s3mod.s3error(500, "Enough")
                return s3mod.Answer(200, body, {"Content-Type": "application/xml"})
        w.srv.hook = hook
        bad = not well_formed(body)
        if bad and HANG in KNOWN and hung:
            continue
        r = j(k, *rng.choice([["install", vs[-1]], ["install", vs[-1]], ["install", vs[-1]], ["sync"], ["debug"], ["create-patch", vs[0], vs[1]]]), hangs=HANG if bad else None)
        hung += r is None
        w.srv.hook = None


ETAGS = ["", " ", '"', "'", '""', '"""', "-", '"-"', '"-', '-"', '"x-1"', '"d41d8cd98f00b204e9800998ecf8427e', 'd41d8cd98f00b204e9800998ecf8427e"', "d41d8cd98f00b204e9800998ecf8427e", '"D41D8CD98F00B204E9800998ECF8427E"', 'W/"x"', "W/", 'w"',
         "\t", "0", '"0"', "a" * 60000, '"' * 1000, '"%s"' % ("f" * 31), '"%s"' % ("f" * 33), '"\\"', '"a"b"', "{}", "%s", '"0123456789abcdef0123456789abcdeg"', None]


def f_etags(d, w, rng, j):
    """every odd checksum the server might state, once for each way of fetching and for an upload"""
    w.use_s3()
    a, b = "1.0", "1.1"
    x, y = content(rng, 300), content(rng, 9000)
    e = ETAGS[d["i"]]
    w.remote.put(b + ".tar.zst", zs.compress(y) + zs.skippable(9000))
    w.remote.put(patch_name(a, b), zs.compress(bpatch.encode(x, y, rng, 2)))
    for k in range(3):
        w.srv.hook = lambda r: s3mod.Answer(200, w.srv.objects.get(r["key"], b""), {"ETag": e}) if r["kind"] in ("GET", "PUT") else None
        if k == 1:
            w.put_local(a + ".tar.zst", zs.compress(x))
            if not os.path.lexists(os.path.join(w.local, "current")):
                os.symlink(a + ".tar.zst", os.path.join(w.local, "current"))
        j("etag", *(["install", b] if k < 2 else ["sync"]))


LENGTHS = ["-1", "0", "1", "18446744073709551615", "9223372036854775807", "9223372036854775808", "4611686018427387904", "1152921504606846976", "281474976710656", "9000000000", "abc", "", "1, 2", "+5", "0x10"]
BODIES = ["x" * k + c * 300 for k in range(4) for c in ("\u00e9", "\u65e5", "\U0001f600")] + ["", "\ufffd" * 100, "<Error><Code>" + "\u65e5" * 200, "\0" * 200, "<?xml version=\"1.0\"?><Error><Code>" + "\u65e5" * 90 + "</Code><Message>" + "\u00e9" * 999 + "</Message></Error>"]
FIXED = [(q, "length", x) for x in LENGTHS for q in ("GET", "PUT")] + [(q, "body", x) for x in BODIES for q in ("GET", "PUT")] + [("LIST", "body", BODIES[-1])]


def f_fixed(d, w, rng, j):
    """stated lengths and texts of error answers, once for each request that reads them"""
    w.use_s3()
    a, b = "1.0", "1.1"
    w.remote.put(b + ".tar.zst", zs.compress(b"content"))
    w.put_local(a + ".tar.zst", zs.compress(b"other"))
    for n, (which, k, x) in enumerate(FIXED[d["i"]::8]):
        def hook(r):
            if r["kind"] != which:
                return None
            body = w.srv.objects.get(r["key"], b"") if which == "GET" else b""
            if k == "length":
                return s3mod.Answer(200, body, {"ETag": s3mod.etag(body), "Content-Length": x}, cut=len(body))
            return s3mod.Answer(rng.choice([400, 403, 404, 409]), x.encode() + rng.choice([b"", b"\xff" * 70]), {"Content-Type": "application/xml"})
        w.srv.hook = hook
        j("%s %s" % (which, k), *(["sync"] if which == "PUT" else ["install", b]))
        w.srv.hook = None
        if os.path.exists(os.path.join(w.local, b + ".tar.zst")):
            os.remove(os.path.join(w.local, b + ".tar.zst"))
        w.srv.objects.pop(w.remote.key(a + ".tar.zst"), None)


def f_answer(d, w, rng, j):
    w.use_s3()
    for _ in range(5):
        clear(w)
        vs = names(rng, 3)
        c, T = content(rng, rng.choice([300, 40000])), {}
        for v in vs:
            c = mutate(rng, c)
            T[v] = c
            w.remote.put(v + ".tar.zst", zs.compress(c) + zs.skippable(9000))
        w.put_local(vs[0] + ".tar.zst", zs.compress(T[vs[0]]))
        for a, b in zip(vs, vs[1:]):
            w.remote.put(patch_name(a, b), zs.compress(bpatch.encode(T[a], T[b], rng, 2)))
        if rng.random() < .7:
            os.symlink(vs[0] + ".tar.zst", os.path.join(w.local, "current"))
        which = rng.choice(["GET", "GET", "GET", "PUT", "LIST"])
        k = rng.choice(["status", "etag", "length", "cut", "drop", "headers", "body", "chunked", "encoding", "raw", "empty", "date", "huge"])

        def hook(r):
            if r["kind"] != which:
                return None
            b = w.srv.objects.get(r["key"], b"") if which == "GET" else (w.srv.listing(r["query"]).body if which == "LIST" else b"")
            A = s3mod.Answer
            e = {"ETag": s3mod.etag(b)}
            if k == "status":
                return A(rng.choice([201, 204, 206, 301, 302, 304, 307, 400, 401, 403, 404, 409, 412, 416, 418, 429, 500, 503, 599, 600, 700, 999]), rng.choice([b, b"", b"<Error>", b"<Error><Code>X</Code></Error>", rng.randbytes(60)]), rng.choice([e, {}, dict(Location="https://localhost/else"), dict(Location="\x01\xff")]))
            if k == "etag":
                return A(200, b, {"ETag": rng.choice(["", '"', '""', '"""', "-", '"x-1"', "W/" + e["ETag"], e["ETag"].upper(), "é", "\xff\xfe", "a" * 60000, e["ETag"][:-2], e["ETag"] + '"', "\t", None])})
            if k == "length":
                return A(200, b, dict(e, **{"Content-Length": rng.choice(["-1", "0", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "abc", "", "1, 2", "+5", str(len(b) + 1), str(max(0, len(b) - 1)), "0x10"])}), cut=len(b))
            if k == "cut":
                return A(200, b, e, cut=rng.randrange(len(b) + 1) if b else 0)
            if k == "drop":
                return A(drop=True)
            if k == "headers":
                h = dict(e)
                for i in range(rng.choice([1, 5, 200])):
                    h[rng.choice(["X-%d" % i, "Last-Modified", "Content-Type", "Expires", "x-amz-meta-%d" % i, "x-amz-mp-parts-count", "x-amz-tagging-count", "x-amz-missing-meta", "x-amz-delete-marker", "Content-Range",
                                  "x-amz-storage-class", "x-amz-object-lock-retain-until-date", "x-amz-server-side-encryption-bucket-key-enabled", "Accept-Ranges", "x-amz-request-charged", "x-amz-restore", "x-amz-version-id"])] = \
                        rng.choice(NUM[:9] + ["true", "maybe", "\xe9\xff", "a" * 3000, "a\tb", ",", ";;"]).encode("latin-1", "replace").decode("latin-1")
                return A(200, b, h)
            if k == "body":
                return A(200, rng.choice([b"", rng.randbytes(200), b + b"x", mutbytes(rng, b)]), e)
            if k == "chunked":
                c = rng.choice([b"zz\r\nabc", b"5\r\nab", b"ffffffffffffffff\r\nabc\r\n0\r\n\r\n", b"-1\r\n\r\n", b"0\r\n\r\n", b"%x\r\n%s\r\n0\r\n\r\n" % (len(b), b), b"", b"1;x=y\r\na\r\n0\r\nT: r\r\n\r\n", b"10000000000000000\r\n"])
                return A(200, c, dict(e, **{"Transfer-Encoding": "chunked", "Content-Length": rng.choice([None, None, "5"])}), cut=len(c))
            if k == "encoding":
                return A(200, b, dict(e, **{"Content-Encoding": rng.choice(["gzip", "br", "x", "zstd"]), "Content-Type": "\xff"}))
            if k == "raw":
                return A(200, rng.randbytes(50), {"Content-Length": None}, cut=50)
            if k == "empty":
                return A(200, b"", {})
            if k == "date":
                return A(200, b, dict(e, **{"Last-Modified": rng.choice(["never", "", "Wed, 99 Foo 99999 99:99:99 GMT"]), "Expires": "-1", "Date": "x"}))
            return A(200, b + bytes(5 << 20), {"ETag": s3mod.etag(b + bytes(5 << 20))})
        w.srv.hook = hook
        if which == "PUT":
            j(which + " " + k, "sync")
        else:
            j(which + " " + k, *rng.choice([["install", vs[-1]], ["install", vs[-1]], ["create-patch", vs[1], vs[2]]]),
              hangs=HANG if which == "LIST" and k in ("status", "length", "cut", "body", "chunked", "raw", "empty") else None)
        w.srv.hook = None


WEIRD = ["", " ", "-", "--", "---", "a---b", ".", "..", "../x", "//", "/etc/passwd", "a/b", "\n", "\t", "\x01", "é", "\u0301", "\u202e", "\ud7ff", "\U0001f600", "a" * 255, "b" * 5000, "%s%n%d", "{}", "{0}", "$HOME", "~", "*", "?", "\\", "a\\b",
         "current", ".tar.zst", ".patch", "x.tar", "x.tar.zst", "x.patch.zst", "--help", "-v", "-V", "--version", "--upload", "=", "--local=", "0", "-1", "1e9", "18446744073709551616", "1.18446744073709551615", "00", "1..2", "...", "\u0662", "1.\u0662", "İ", "ß", "ǅ", "K",
         b"\xff", b"a\xffb", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80"]


def f_args(d, w, rng, j):
    w.use("dir")
    for v in ("1.0", "1.1", "x"):
        w.put_local(v + ".tar.zst", zs.compress(v.encode() * 50))
    f = os.path.join(w.src, "n.tar.zst")
    write(f, zs.compress(b"n"))
    repo = repo_with(w, rng, ["1.0", "1.1"])
    for _ in range(22):
        W = lambda: rng.choice(WEIRD)
        tmpl = rng.choice([["install", W()], ["add", W()], ["add", f, "--calc-patch-from", W()], ["add-package", W(), f], ["add-package", "p", rng.choice([x for x in WEIRD if x != "//"])], ["create-patch", W(), "1.0"], ["create-patch", "1.0", W()],
                           ["create-patch", W(), W()], ["auto-patch", "--repo-root", repo, W()], ["auto-patch", "--repo-root", W(), "1.1"], ["auto-patch", "--repo-root", repo, "--prefix", W(), "1.1"],
                           ["sync", W()], ["debug", W()], [W()], [W(), W()], [], ["install"], ["install", "1.0", W()], ["help", W()], ["-vvv", "debug"], ["debug", "-v"], ["add-package", W(), f, "--calc-patch-from", W(), "--upload"]])
        if rng.random() < .3 and tmpl:
            tmpl.insert(rng.randrange(len(tmpl) + 1), W())
        if any(isinstance(a, str) and "\0" in a for a in tmpl):
            continue
        opts = None
        if rng.random() < .25:
            opts = rng.choice([["--local", W(), "--remote", w.remote.url], ["--local", w.local, "--remote", W()], ["--local", w.local], ["--remote", w.remote.url], [], ["--local", w.local, "--local", w.local, "--remote", w.remote.url],
                               ["--local", f, "--remote", w.remote.url], ["--local", w.local, "--remote", f], ["--local", "/dev/null", "--remote", "/dev/null"], ["--local", w.local, "--remote", w.local],
                               ["--local", w.local, "--remote", rng.choice(URLS)], ["--local", w.local, "--remote", rng.choice(URLS)]])
        j("args", *[os.fsencode(a) for a in tmpl], opts=[os.fsencode(o) for o in opts] if opts is not None else None, cmd=next((a for a in tmpl if isinstance(a, str) and a in ("install", "add", "add-package", "create-patch", "auto-patch", "sync", "debug")), "?"), env=dict(VF_PORT="1", AWS_ACCESS_KEY_ID="a", AWS_SECRET_ACCESS_KEY="b"))


URLS = ["s3:", "s3:/", "s3://", "s3:///", "s3://a", "s3://.", "s3://..", "s3://a.", "s3://.a", "s3://a.b:99999", "s3://a.localhost:1", "s3://[::1]", "s3://[::1].x", "s3://a%00.localhost/", "s3://a%20b.localhost/", "s3://a.local host/",
        "s3://a.local%0ahost", "s3://é.localhost", "s3://a.lôcalhost/", "s3://a.localhost/%", "s3://a.localhost/%00", "s3://a.localhost/%ff%fe", "s3://a.localhost/é", "s3://a.localhost/a b", "s3://a.localhost/?x#y", "s3://u:p@a.localhost/", "s3://A.LOCALHOST",
        "http://a.localhost", "https://x", "file:///etc", "x:", "s3", "S3://a.localhost", "s3:a.localhost", "s3://a.localhost" + "/x" * 5000, "s3://" + "a" * 300 + ".localhost", "s3://a." + "b" * 300, "s3://1.2.3.4", "s3://127.0.0.1/", "s3://a.localhost/../..", "s3://a.localhost//", "s3://a.*", "s3://a.{}"]


def f_env(d, w, rng, j):
    """environment and configuration files"""
    s3 = d["i"] % 2 == 0
    w.use("s3" if s3 else "dir")
    a, b = names(rng, 2)
    c = content(rng, 3000)
    w.put_local(a + ".tar.zst", zs.compress(c))
    w.remote.put(b + ".tar.zst", zs.compress(mutate(rng, c)))
    t = os.path.join(w.src, "t")
    write(t, b"x" * 5000)
    for i in range(9):
        k = rng.choice(["level", "level", "tmpdir", "rustlog", "creds", "home", "lang", "store", "cwd"])
        e, kw = {}, {}
        if k == "level":
            e["ARTEFACTA_COMPRESSION_LEVEL"] = rng.choice(["-2147483648", "2147483647", "-2147483649", "0", "-1", "22", "23", "", "x", "1.5", "999999999999", b"\xff", "\u0663", "+3", " 3"])
        elif k == "tmpdir":
            e["TMPDIR"] = rng.choice(["", "/dev/null", "/nonexistent", "relative", b"\xff\xfe", "x" * 5000, w.local])
        elif k == "rustlog":
            e["RUST_LOG"] = rng.choice(["trace,rusoto=off,hyper=off", "artefacta=trace", "debug", "=,=,", "a=b=c", "/[", "artefacta=trace/(", "off", b"\xff", "x" * 3000])
        elif k == "creds" and s3:
            # values that the SDK rejects make it ask the metadata service of the cloud, which is out of domain
            e.update(AWS_ACCESS_KEY_ID=rng.choice(["a" * 5000, "k", "%s", "a/b+c="]), AWS_SECRET_ACCESS_KEY=rng.choice(["s", "/", "a b"]), AWS_SESSION_TOKEN=rng.choice([None, "t", "a" * 3000]), AWS_CREDENTIAL_EXPIRATION=rng.choice([None, "2099-01-01T00:00:00Z"]))
        elif k == "home":
            e["HOME"] = rng.choice([None, "", "/nonexistent", b"\xff", t])
            os.makedirs(os.path.join(w.root, "home", ".aws"), exist_ok=True)
            if rng.random() < .5 and not e["HOME"]:
                e["HOME"] = os.path.join(w.root, "home")
            write(os.path.join(w.root, "home", ".aws", "credentials"), rng.choice([b"", b"[default]\naws_access_key_id=a\naws_secret_access_key=b\n", rng.randbytes(100), b"[default\n", b"=", b"[default]\naws_access_key_id\n", b"[]"]))
        elif k == "lang":
            e.update(LANG=rng.choice(["C", "xx_YY", "", b"\xff"]), LC_ALL=rng.choice(["C", "tr_TR.UTF-8", ""]), TERM=rng.choice(["", "dumb", b"\xff"]), RUST_BACKTRACE=rng.choice(["1", "full", "x"]), NO_COLOR="1")
        elif k == "store":
            e.update(ARTEFACTA_LOCAL_STORE=rng.choice(["", w.local, b"\xff", "/nonexistent"]), ARTEFACTA_REMOTE_STORE=rng.choice(["", w.remote.url, b"\xff", "s3://"]), CI_COMMIT_REF_NAME=rng.choice(["", "1.0", b"\xff", "a---b"]))
            kw["opts"] = []
        elif k == "cwd":
            if rng.random() < .5:
                kw["cwd"] = os.path.join(os.fsencode(w.root), b"odd-\xff\xfe-dir")
                os.makedirs(kw["cwd"], exist_ok=True)
            elif not d["asan"]:      # a working directory that no longer exists
                sh = os.path.join(w.ctl, "gone.sh")
                write(sh, b'#!/bin/sh\nmkdir "$VF_GONE" && cd "$VF_GONE" && rmdir "$VF_GONE" && exec "$VF_BIN" "$@"\n', 0o755)
                e.update(VF_GONE=os.path.join(w.ctl, "gone"), VF_BIN=w.bin)
                kw["binary"] = sh
        j(k, *rng.choice([["add-package", "p%d" % i, t], ["create-patch", a, b], ["install", b], ["sync"], ["debug"], ["auto-patch", "1.0"]]), env=e, **kw)


def f_git(d, w, rng, j):
    w.use("dir")
    for v in ("1.2.3", "1.2.2", "1.1.9", "0.1"):
        w.put_local(v + ".tar.zst", zs.compress(content(rng, 200)))
    for _ in range(3):
        repo = repo_with(w, rng, ["1.2.2", "1.2.3", "1.1.9"])
        g = os.path.join(repo, ".git")
        head = read(os.path.join(g, "refs/tags/1.2.2")).strip()
        ops.git(w, repo, ["tag", "-a", "-m", "m", "0.1"])
        k = rng.choice(["packed", "packed", "object", "object", "ref", "ref", "head", "config", "config", "gitfile", "dirs", "names", "objects", "pack", "huge", "commit", "commit"])
        if k == "packed":
            if rng.random() < .6:
                ops.git(w, repo, ["pack-refs", "--all"])
                p = os.path.join(g, "packed-refs")
                write(p, mutbytes(rng, read(p)))
            else:
                write(os.path.join(g, "packed-refs"), rng.choice([rng.randbytes(200), b"# pack-refs with: peeled fully-peeled sorted \n" + head + b" refs/tags/1.2.2\n^" + head[:20], head + b" refs/tags/\n", b"^" + head + b"\n", head + b" refs/tags/1.0\n" * 3000,
                                                                  b"0" * 40 + b" refs/tags/1.2.2\n", head + b" refs/tags/\xff\xfe\n", head + b" refs/tags/../../x\n", b"\n\n\n", head + b"  refs/tags/a"]))
        elif k == "object":
            objs = [os.path.join(x, f) for x, _, fs in os.walk(os.path.join(g, "objects")) for f in fs]
            p = rng.choice(objs)
            os.chmod(p, 0o600)
            write(p, rng.choice([b"", mutbytes(rng, read(p)), rng.randbytes(50)]))
        elif k == "objects":
            shutil.rmtree(os.path.join(g, "objects"))
            if rng.random() < .5:
                os.mkdir(os.path.join(g, "objects"))
        elif k == "ref":
            write(os.path.join(g, "refs/tags", rng.choice(["1.2.2", "1.2.1", "x"])), rng.choice([b"", rng.randbytes(41), head[:39], head + b"x", b"ref: refs/tags/1.2.2", b"ref: ", b"ref: refs/tags/x", b"ref: refs/tags/y\n", b"ref: ../../../etc/passwd", b"0" * 40, b"f" * 40, b"\0" * 41]))
            write(os.path.join(g, "refs/tags/y"), b"ref: refs/tags/x\n")
        elif k == "head":
            write(os.path.join(g, "HEAD"), rng.choice([b"", b"ref:", rng.randbytes(20), b"ref: refs/heads/" + b"x" * 5000, b"ref: HEAD"]))
        elif k == "config":
            p = os.path.join(g, "config")
            write(p, rng.choice([mutbytes(rng, read(p)), rng.randbytes(100), b"[core]\nrepositoryformatversion = 999\n", b"[core]\nbare = maybe\n", b"[include]\npath = config\n", b"[core]\nworktree = /nonexistent\n", b"[" + b"a" * 70000, b"[a \"b\n", b"[a]\nb = \\x",
                                 b"[extensions]\nobjectformat = sha256\n[core]\nrepositoryformatversion=1\n", b"[core]\nrepositoryformatversion = 0\n" + b"x = y\n" * 20000]))
        elif k == "gitfile":
            shutil.rmtree(g)
            write(g, rng.choice([b"", b"gitdir: ", b"gitdir: .", b"gitdir: .git", b"gitdir: /nonexistent\n", b"gitdir: " + b"a" * 5000, rng.randbytes(50), b"gitdir: ../" * 50]))
        elif k == "dirs":
            shutil.rmtree(os.path.join(g, rng.choice(["refs", "objects/pack", "refs/tags"])))
        elif k == "names":
            for n in (b"\xff", b"a\xffb", "é".encode(), b"1..2", b"x" * 200, b"-", b"1.2.18446744073709551616", b"1.2.99999999999999999999999999", b"...", b"1.2.lock", b"1.2." + b"2" * 240):
                write(os.path.join(os.fsencode(g), b"refs/tags", n), head + b"\n")
        elif k == "pack":
            ops.git(w, repo, ["repack", "-adq"], ["prune-packed", "-q"])
            for p in os.listdir(os.path.join(g, "objects/pack")):
                p = os.path.join(g, "objects/pack", p)
                if rng.random() < .6:
                    os.chmod(p, 0o600)
                    write(p, rng.choice([mutbytes(rng, read(p)), read(p)[:rng.randrange(60)], b""]))
        elif k == "huge":
            write(os.path.join(g, "packed-refs"), b"# pack-refs with: peeled fully-peeled sorted \n" + b"".join(head + b" refs/tags/1.2.%05d\n" % i for i in range(3000)))
        else:
            import zlib, hashlib
            body = rng.choice([b"", b"tree " + b"0" * 40 + b"\n", b"tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\nauthor a <b> 99999999999999999999 +9999\ncommitter a <b> -99999999999999 -9999\n\nm", b"tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\nauthor a <b> 9223372036854775807 +0000\ncommitter a <b> 9223372036854775807 +0000\n\nm",
                               b"tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\nauthor a\ncommitter <\n\n", rng.randbytes(80), *[b"tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\nauthor a <b> %d +0000\ncommitter a <b> %d %s\n\nm" % (x, x, z) for x in (-2 ** 63, 2 ** 63 - 1, -99999999999999, 99999999999999, 8210298412799, 8210266876800, -8334632851200 - 86400 * 400) for z in (b"+0000", b"-9999", b"+1459")], b"object " + head + b"\ntype commit\ntag x\n", b"object " + head + b"\ntype tag\ntag \xff\ntagger \n\n"])
            t = rng.choice([b"commit"] * 6 + [b"tag", b"tag", b"tree", b"blob", b"zzz"]) if not body.startswith(b"tree ") or rng.random() < .2 else b"commit"
            # a size that is too small is a listed finding, and undefined in the normal build
            o = t + b" %d\0" % rng.choice([len(body)] * 8 + [len(body) + 1, len(body) + 5000, 2 ** 31, 2 ** 63, 2 ** 64 - 1] + ([0, len(body) // 2] if d["asan"] else [])) + body
            h = hashlib.sha1(o).hexdigest()
            os.makedirs(os.path.join(g, "objects", h[:2]), exist_ok=True)
            write(os.path.join(g, "objects", h[:2], h[2:]), zlib.compress(o))
            write(os.path.join(g, "refs/tags", rng.choice(["1.2.2", "1.1.8"])), h.encode() + b"\n")
        j(k, "auto-patch", "--repo-root", repo, rng.choice(["1.2.3", "1.2.3", "1.2.18446744073709551615", "1.2.00000000000000000000003", "1.2.99999999999999999999"]), hangs=HANG_GIT if k == "object" else None)
        shutil.rmtree(repo)


CHARS = ["0", "1", "2", "9", "10", "007", "18446744073709551616", ".", ".", ".", "-", "a", "Z", "é", "É", "ß", "ẞ", "İ", "ı", "ﬁ", "K", "Å", "Σ", "ς", "٣", "३", "²", "½", "Ⅷ", "日", "😀", "🏴", "e\u0301", "\u200b", "\u202e",
         "\u00a0", "\ufeff", "\ufffd", " ", "\t", "\n", "\x7f", "%", "%2f", "+", "#", "?", "*", "\\", "'", '"', "$x", "`", "<", "&", "_", "~", ":", ";", "x" * 60]


def f_versions(d, w, rng, j):
    """version names, tags and prefixes of unusual characters, for which builds exist"""
    w.use("s3" if d["i"] % 5 == 0 else "dir")
    ver = lambda: "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 2, 3, 5, 8, 12])))
    ok = lambda v: v and "---" not in v and not v.endswith("-") and len(v.encode()) < 200 and v not in (".", "..") and not v.startswith("-")
    vs = []
    while len(vs) < 6:
        v = ver()
        near = re.sub(r"[1-9]", lambda m: str(int(m.group()) - 1), v)
        vs += [x for x in {v, near, v.upper(), v.lower(), v + ".0", v + ".1"} if ok(x) and x not in vs][:4]
    c = content(rng, 300)
    pre = rng.choice(["", "", "é-", "İ", "v"])
    for v in vs:
        c = mutate(rng, c)
        for x in {v, pre + v}:
            (w.put_local if rng.random() < .6 else w.remote.put)(x + ".tar.zst", zs.compress(c))
    repo = repo_with(w, rng, ["1.0"])
    head = read(os.path.join(repo, ".git/refs/tags/1.0"))
    with open(os.path.join(repo, ".git/packed-refs"), "wb") as f:       # also names that git itself would refuse
        for v in sorted(vs):
            f.write(head.strip() + b" refs/tags/" + v.encode() + b"\n")
    f = os.path.join(w.src, rng.choice(vs) + ".tar.zst")
    write(f, zs.compress(mutate(rng, c)))
    for v in vs[:4]:
        j("auto", "auto-patch", "--repo-root", repo, *(["--prefix", pre] if pre else []), "--", v)
    a, b = rng.sample(vs, 2)
    for args in (["create-patch", "--", a, b], ["install", "--", a], ["install", "--", b], ["add", f, "--calc-patch-from=" + a], ["add-package", "--upload", "--calc-patch-from=" + b, "--", ver(), f], ["sync"], ["debug"]):
        j("versions", *args)


def f_source(d, w, rng, j):
    import socket
    w.use("dir")
    bt = os.fsencode(w.src)
    for i in range(4):
        t = os.path.join(bt, b"t%d" % i)
        os.mkdir(t)
        k = rng.choice(["special", "names", "deep", "links", "sparse", "owner", "growing", "many"])
        if k == "special":
            os.mkfifo(os.path.join(t, b"fifo"))
            s = socket.socket(socket.AF_UNIX)
            os.chdir(t)
            s.bind("sock")
            os.chdir("/")
            s.close()
            write(os.path.join(t, b"f"), b"x")
        elif k == "names":
            for n in (b"\xff\xfe", b"a\nb", b" ", b"\\", b"%s", b"x" * 255, "é".encode(), b"\x01", b"-", b"--", b"..."):
                write(os.path.join(t, n), b"x")
        elif k == "deep":
            x = t
            for _ in range(rng.choice([5, 14])):
                x = os.path.join(x, b"d" * 200)
            os.makedirs(x)
            write(os.path.join(x, b"f"), b"x")
        elif k == "links":
            os.symlink(b".", os.path.join(t, b"self"))
            os.symlink(b"/nonexistent", os.path.join(t, b"gone"))
            os.symlink(b"loop", os.path.join(t, b"loop"))
            os.symlink(b"..", os.path.join(t, b"up"))
        elif k == "sparse":
            write(os.path.join(t, b"s"), b"")
            os.truncate(os.path.join(t, b"s"), 1 << 22)
        elif k == "owner":
            write(os.path.join(t, b"o"), b"x")
            os.chmod(os.path.join(t, b"o"), rng.choice([0, 0o7777, 0o4755]))
            os.utime(os.path.join(t, b"o"), ns=(rng.choice([0, -10 ** 18, 2 ** 62]), rng.choice([0, -10 ** 18, 8 * 10 ** 18])))
        elif k == "growing":
            write(os.path.join(t, b"g"), b"x" * 100000)
            p = subprocess.Popen(["/bin/sh", "-c", "i=0; while [ $i -lt 300 ]; do echo yyyyyyyyyyyyyyyyyyy >> g; : > h; : > g; i=$((i+1)); done"], cwd=t)
            j(k, "add-package", "g%d" % i, t)
            p.wait()
        else:
            for n in range(400):
                write(os.path.join(t, b"%d" % n), b"x")
        pick = t
        if k in ("special", "links") and rng.random() < .5:
            pick = os.path.join(t, rng.choice(os.listdir(t)))
            if os.path.basename(pick) == b"fifo":
                pick = t
        j(k, "add-package", "p%d" % i, pick, *rng.choice([[], ["--upload"]]))
        if k in ("links", "special", "names"):
            x = rng.choice(os.listdir(t))
            if x != b"fifo":
                j(k, "add", os.path.join(t, x))
    j("device", "add-package", "q", rng.choice(["/dev/null", "/dev/zero", "/proc/self/status", "/dev/full"]))
    j("device", "add", rng.choice(["/dev/null", "/dev/zero", "/dev/full"]))


def f_names(d, w, rng, j):
    """stores full of oddly named and odd things"""
    w.use("s3" if d["i"] % 3 == 0 else "dir")
    a, b = names(rng, 2)
    c = content(rng, 1000)
    w.put_local(a + ".tar.zst", zs.compress(c))
    w.remote.put(b + ".tar.zst", zs.compress(mutate(rng, c)))
    for where in [w.local] + ([w.remote.path] if w.remote.kind == "dir" else []):
        for n in rng.sample(WEIRD, 14):
            n = os.fsencode(n)
            n = rng.choice([n, n + b".tar.zst", n + b".patch.zst", n + b"-" + n + b".patch.zst", n + b"---" + n + b".patch.zst"])
            if not n or b"/" in n or b"\0" in n or n in (b".", b"..", b"current") or len(n) > 255:
                continue
            p = os.path.join(os.fsencode(where), n)
            k = rng.randrange(5)
            if os.path.lexists(p):
                continue
            if k < 2:
                write(p, rng.randbytes(9))
            elif k == 2:
                os.mkdir(p)
            elif k == 3:
                os.symlink(rng.choice([b"gone", n, b".", os.fsencode(a) + b".tar.zst"]), p)
            else:
                os.mkfifo(p)
    cur = os.path.join(w.local, "current")
    k = rng.choice(["none", "loop", "dir", "noise", "deep", "root", "text", "file"])
    if k == "loop":
        os.symlink("current", cur)
    elif k == "dir":
        os.mkdir(cur)
    elif k == "noise":
        os.symlink(os.path.join(os.fsencode(w.local), b"\xff\xfe.tar.zst"), os.fsencode(cur))
    elif k == "deep":
        os.symlink("a/" * 2000, cur)
    elif k == "root":
        os.symlink(rng.choice(["/", "..", ".", "...", ".tar.zst", "/dev/null"]), cur)
    elif k == "text":
        os.symlink(rng.choice(["a---b.tar.zst", "x.tar.zst.tar.zst", " "]), cur)
    elif k == "file":
        write(cur, b"x")
    f = os.path.join(w.src, "n.tar.zst")
    write(f, zs.compress(b"n"))
    for args in (["debug"], ["install", b], ["create-patch", a, b], ["add", f, "--calc-patch-from", a], ["sync"]):
        j("current-" + k, *args)
