import unicodedata
from world import *

LEVEL = "exploration"
RULE = ("Each case takes two to four version names, hostile ones and near-twins of one another (suffix-like endings, dots, dashes, spaces, Unicode in several "
        "normal forms, option-like, glob and quoting characters, up to the maximal length), adds or packages builds under them on one "
        "machine, creates patches between them, syncs (directory or S3), and installs and upgrades on another machine; the names of all files in both "
        "stores, the contents and `current` are compared with the expected ones exactly. Other cases give every command that takes a version a name that must be "
        "refused, and compare the whole scratch tree before and after. Distinct by names, command and remote.")
ASSUMPTIONS = ["a build file is named <version>.tar.zst", "with S3, names contain no characters that XML 1.0 cannot express", "names that do not fit into a file name of 255 bytes are refused by the file system"]

BITS = ["1", "2", "10", "a", "b", "v", "-", "--", ".", "..", ".tar", ".patch", ".zst", ".tar.zst", ".patch.zst", ".part", " ", "tar", "zst", "_", "+", "é", "e\u0301", "日", "😀", "İ", "ß", "A",
        "%", "#", "?", "&", "*", "'", "\"", "\\", "$", "~", "!", ":", ";", "|", "<", ">", "(", "[", "{", ",", "=", "@", "^", "`", "0", "rc", "x"]
FIXED = ["current", ".tar", ".patch", "x.tar", "x.patch", "x.tar.tar", "x.patch.patch", "x.tar.patch", "x.patch.tar", "x.zst", "x.tar.zst", "x.patch.zst", "x.tar.zst.tar", ".", "..", "...", ".hidden",
         "._x", "._artefacta-temp-1.part", "-x", "--x", "--help", "--", "-1", "-v", "1.", "1..2", ".1", "a-b", "a--b", "a-b-c", "a.b-c", "--a", "a -b", "a- b", " ", "  ", "a ", " a", "\t", "\n", "a\nb",
         "install", "s3:", "s3:x", "http:", "C:", "~", "$HOME", "%2F", "%2f", "..%2f", "\\", "a\\b", "\u202e", "\u200b", "\ufeff", "é", "e\u0301", "ﬁ", "fi", "K", "\u212a", "1", "01", "１", "²", "1e3", "0x1", "+1",
         "a" * 60, "a" * 200, "é" * 100, "null", "nul", "a.patch-b", "a.tar-b", "a.tar.zst-b", "-.tar", "tar", "zst", "patch", "a.TAR", "a.Tar.Zst", "x-y.patch", "v1.0.0-alpha.1+build.5", "x.tar-", "\x01", "\x7f", "\x1b[31m"]
REFUSED = ["a---b", "---", "a---", "---a", "----", "a----b", "x/y", "/", "/abs", "../up", "a/", "./a", "..//..", "a/../b", "a-", "-", "--", "a--", "-/-", "a/b---c", "---a/b", "\u00e9---x", "a---.tar", "s3://b/c",
           "1.0.0---rc", "sub/1.0", "../local/x", "../../w/src/x", "a-/", "a---b---c"]
REFUSED = [r for r in REFUSED if not r.endswith("-") or "---" in r or True]


def legal(n):
    return n and "---" not in n and "/" not in n and not n.endswith("-") and "\0" not in n and len((n + ".tar.zst").encode()) <= 255


def xml_ok(n):
    return all(c in "\t\n\r" or ord(c) >= 32 and c not in "\ufffe\uffff" for c in n)


def rnd(rng):
    while True:
        n = "".join(rng.choice(BITS) for _ in range(rng.randint(1, 5)))
        if legal(n):
            return n


def twins(rng, n):
    """names that a sloppy treatment could take for n"""
    out = [n + ".tar", n + ".patch", n + ".tar.zst", n + ".zst", "." + n, n + ".", n + " ", " " + n, n.upper(), n.lower(), n.replace("-", "."), n.replace(".", "-"), n + "-" + n, n + "0", "0" + n,
           unicodedata.normalize("NFD", n), unicodedata.normalize("NFC", n), n[:-1], n[1:], n.strip(), n.replace("-", "--"), n.replace("--", "-"), n.replace(".tar", ""), n.replace(".patch", ""),
           n.replace(" ", "+"), n.replace("+", " "), n.replace("%", "%25"), "v" + n, "-" + n, "--" + n, n.replace(".zst", ""), n + "\n", n + "-1", n.swapcase(), n.replace("\\", "")]
    out = [x for x in out if legal(x) and x != n]
    return out


def cases(tier, rng):
    cs = []
    n = 520 if tier == "quick" else 9000
    for i in range(n):
        pool = [rng.choice(FIXED) if rng.random() < .6 else rnd(rng)]
        if i < len(FIXED):
            pool = [FIXED[i]]
        if not legal(pool[0]):
            pool = [rnd(rng)]
        k = rng.randint(2, 4)
        for _ in range(50):
            if len(pool) >= k:
                break
            x = rng.choice(twins(rng, pool[0])) if rng.random() < .6 and twins(rng, pool[0]) else (rng.choice(FIXED) if rng.random() < .6 else rnd(rng))
            if legal(x) and x not in pool:
                pool.append(x)
        cs.append(dict(mode="trip", names=pool, remote="s3" if i % 3 == 1 and all(map(xml_ok, pool)) else "dir", pkg=rng.random() < .3))
    for v in REFUSED:
        cs.append(dict(mode="refuse", name=v, remote=rng.choice(["dir", "s3"])))
    if tier != "quick":
        for _ in range(600):
            a, b = rnd(rng), rnd(rng)
            cs.append(dict(mode="refuse", name=rng.choice([a + "---" + b, a + "/" + b, a + "-", "/" + a, a + "/", "---" + a, a + "----" + b]), remote=rng.choice(["dir", "s3"])))
    for p in ([10, 100, 123, 247] if tier == "quick" else [1, 50, 118, 119, 120, 121, 122, 123, 124, 125, 126, 200, 240, 246, 247, 248, 249, 250, 251, 255, 300]):
        for ch in "aé":
            cs.append(dict(mode="long", n=p, ch=ch, remote="dir"))
    return cs


def run(d, w, obs):
    w.use(d["remote"])
    dict(trip=trip, refuse=refuse, long=long_)[d["mode"]](d, w, obs)


def trip(d, w, obs):
    rng = w.rng
    vs = d["names"]
    what = "versions %s (%s)" % (ascii(vs), d["remote"])
    a, b = w.machine("a"), w.machine("b")
    truth = {}
    c = content(rng, 400)
    files_ = {}
    for v in vs:
        c = mutate(rng, c)
        while c in truth.values():
            c = mutate(rng, c)
        if d["pkg"]:
            t = os.path.join(w.src, "tree%d" % len(truth))
            os.mkdir(t)
            write(os.path.join(t, "f"), c)
            w.ok("add-package", "--", v, t, local=a)
            got = w.lfiles(a).get(v + ".tar.zst")
            if got is None:
                raise Violation("%s: package %a is missing, there are %s" % (what, v, ascii(sorted(w.lfiles(a)))))
            truth[v] = zs.decompress(got)
        else:
            truth[v] = c
            f = os.path.join(w.src, v + ".tar.zst")
            write(f, zs.compress(c) + zs.skippable(900))
            w.ok("add", "--", f, local=a)
            os.unlink(f)
        files_[v + ".tar.zst"] = 1
        exact(w.lfiles(a), files_, what + ": after adding %a" % v)
    # distinct names, distinct files with their own content
    for v in vs:
        if zs.try_decompress(w.lfiles(a)[v + ".tar.zst"]) != truth[v]:
            raise Violation("%s: build %a does not have the content that was added under this name" % (what, v))
    pairs = [(x, y) for x in vs for y in vs if x != y]
    rng.shuffle(pairs)
    pairs = [p for p in pairs if len(patch_name(*p).encode()) <= 255][:rng.randint(2, 6)]
    for x, y in pairs:
        w.ok("create-patch", "--", x, y, local=a)
        files_[patch_name(x, y)] = 1
        exact(w.lfiles(a), files_, what + ": after creating a patch from %a to %a" % (x, y))
    r = w.ok("sync", local=a)
    exact(w.remote.files(), files_, what + ": remote after sync")
    for n in files_:
        if w.remote.files()[n] != w.lfiles(a)[n]:
            raise Violation("%s: %a arrived changed at the remote" % (what, n))
    w.check_artefacts(w.remote.files(), truth, what)
    # known again to a later run: nothing left to transfer or to create
    r = w.ok("sync", local=a)
    if w.remote.written(r):
        raise Violation("%s: a second sync transferred %s" % (what, ascii(w.remote.written(r))))
    if pairs:
        x, y = pairs[0]
        m = w.machine("c")
        r = w.ok("create-patch", "--", x, y, local=m)
        if w.lfiles(m).get(patch_name(x, y)) != w.remote.files()[patch_name(x, y)]:
            raise Violation("%s: the patch from %a to %a is not known under its name on another machine" % (what, x, y))
        obs.count("patches_found_by_name")
    # another machine
    seq = [rng.choice(vs)] + [y for p in pairs[:2] for y in p] + vs
    local = {}
    for v in seq:
        r = w.ok("install", "--", v, local=b)
        cur = w.current(b)
        if cur is None or os.path.realpath(os.path.join(b, cur)) != os.path.join(b, v + ".tar.zst"):
            raise Violation("%s: after install of %a `current` leads to %a" % (what, v, cur))
        got = zs.try_decompress(read(os.path.join(b, "current")))
        if got != truth[v]:
            o = [x for x in vs if truth[x] == got]
            raise Violation("%s: install of %a brought %s" % (what, v, "the content of %a" % o[0] if o else "wrong content"))
        for n in w.lfiles(b):
            if n not in files_:
                raise Violation("%s: install of %a created %a" % (what, v, n))
        for n in w.remote.fetched(r):
            if n not in files_:
                raise Violation("%s: install of %a fetched %a" % (what, v, n))
        obs.count("installs_by_name")
    exact(w.remote.files(), files_, what + ": remote after installs")
    obs.count("names_judged", len(vs))
    obs.key("trip", vs, d["remote"], d["pkg"])
    obs.sample = dict(names=vs, remote=d["remote"], patches=[patch_name(*p) for p in pairs])


def exact(got, want, what):
    if set(got) != set(want):
        raise Violation("%s: there are %s instead of %s" % (what, ascii(sorted(set(got) - set(want))), ascii(sorted(set(want) - set(got)))))


def snapshot(w):
    return tree(w.base, True), dict(w.srv.objects) if w.srv else None


def refuse(d, w, obs):
    rng = w.rng
    bad = d["name"]
    good, good2 = "1.0", "2.0"
    for v in (good, good2, bad.replace("/", "").replace("-", "") or "q"):
        w.put_local(v + ".tar.zst", zs.compress(v.encode() * 30))
        w.remote.put(v + ".tar.zst", zs.compress(v.encode() * 30))
    # what a name that leads astray could reach
    sub = [os.path.join(w.root, x) for x in ("local/x", "local/sub", "src/x", "remote-up")]
    for s in sub:
        os.makedirs(s, exist_ok=True)
        write(os.path.join(s, "1.0.tar.zst"), zs.compress(b"astray"))
    write(os.path.join(w.src, "y.tar.zst"), zs.compress(b"y"))
    t = os.path.join(w.src, "tree")
    os.mkdir(t)
    write(os.path.join(t, "f"), b"f")
    f = os.path.join(w.src, "3.0.tar.zst")
    write(f, zs.compress(b"three"))
    import ops
    repo = os.path.join(w.src, "repo")
    os.mkdir(repo)
    ops.git(w, repo, ["init", "-q"], ["commit", "-q", "--allow-empty", "-m", "x"], ["tag", "1.0"], ["tag", "2.0"])
    cmds = [["install", "--", bad], ["add-package", "--", bad, t], ["add-package", "--upload", "--", bad, t], ["create-patch", "--", bad, good], ["create-patch", "--", good, bad],
            ["create-patch", "--", bad, bad], ["add-package", "--calc-patch-from=" + bad, "--", "4.0", t], ["add", "--calc-patch-from=" + bad, "--", f],
            ["auto-patch", "--repo-root", repo, "--", bad], ["auto-patch", "--repo-root", repo, "--prefix=" + bad, "--", "2.0"]]
    if "/" not in bad and len(bad) < 200:
        g = os.path.join(w.src, bad + ".tar.zst")
        write(g, zs.compress(b"named badly"))
        cmds += [["add", "--", g], ["add", "--upload", "--", g], ["add", "--calc-patch-from", good, "--", g]]
    if bad.endswith("-") and "---" not in bad and "/" not in bad:
        cmds = [c for c in cmds if not any(x.startswith("--prefix") for x in c)]   # the prefix may end with a dash
    for c in cmds:
        before = snapshot(w)
        r = w.run(*c)
        what = "%s with the name %a" % (c[0], bad)
        if r.ok:
            raise Violation("%s was not refused: %s" % (what, r))
        if r.rc < 0:
            raise Violation("%s: killed by a signal: %s" % (what, r))
        after = snapshot(w)
        ig = lambda k: k.startswith(b"ctl")
        ds = diff(before[0], after[0], ig)
        if ds or before[1] != after[1]:
            raise Violation("%s was refused, but changed %s" % (what, ds[:3] or "the remote"))
        puts = [q for q in r.requests if q["kind"] not in ("LIST", "GET", "HEAD")]
        if puts:
            raise Violation("%s: was refused, but sent %s" % (what, [(q["kind"], q["key"]) for q in puts]))
        obs.count("refusals_judged")
        obs.key("refuse", bad, c[:2], d["remote"])


def long_(d, w, obs):
    """names near the maximal length of a file name: they either work or are refused cleanly"""
    rng = w.rng
    v = d["ch"] * (d["n"] // len(d["ch"].encode()))
    v2 = v[:-1] + "b"
    a, b = w.machine("a"), w.machine("b")
    t = os.path.join(w.src, "t")
    os.mkdir(t)
    n = 0
    for x in (v, v2):
        write(os.path.join(t, "f"), x.encode() * 3)
        before = snapshot(w)
        r = w.run("add-package", x, t, local=a)
        fits = len(x.encode()) + 8 <= 255
        if r.ok != fits:
            raise Violation("package with a name of %d bytes: %s" % (len(x.encode()), r))
        if not fits:
            ds = diff(before[0], snapshot(w)[0], lambda k: k.startswith(b"ctl"))
            if ds:
                raise Violation("package with a name of %d bytes failed, but changed %s" % (len(x.encode()), ds[:3]))
            obs.count("refusals_judged")
        else:
            n += 1
            obs.count("names_judged")
    obs.key("long", d["n"], d["ch"])
    if n < 2:
        return
    truth = {x: zs.decompress(w.lfiles(a)[x + ".tar.zst"]) for x in (v, v2)}
    p = patch_name(v, v2)
    fits = len(p.encode()) <= 255
    before = snapshot(w)
    r = w.run("create-patch", v, v2, local=a)
    if r.ok != fits:
        raise Violation("patch with a name of %d bytes: %s" % (len(p.encode()), r))
    if not fits and diff(before[0], snapshot(w)[0], lambda k: k.startswith(b"ctl")):
        raise Violation("patch with a name of %d bytes failed, but left something" % len(p.encode()))
    w.ok("sync", local=a)
    exact(w.remote.files(), w.lfiles(a), "sync of long names")
    w.check_artefacts(w.remote.files(), truth, "sync of long names")
    for x in (v, v2):
        w.ok("install", x, local=b)
        w.check_current(x, b, "install of a long name")
        if zs.try_decompress(read(os.path.join(b, "current"))) != truth[x]:
            raise Violation("install of a long name brought wrong content")
        obs.count("installs_by_name")
