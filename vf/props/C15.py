import hashlib, zlib
import ops, s3 as s3mod
from world import *

LEVEL = "exploration"
RULE = ("Each case writes a git repository with generated tags (several series around the current version, mixed `.`, `-` and case, leading zeros, "
        "components with text, different lengths, more than one digit, packed and loose, lightweight and annotated, on branches, to trees, nested), puts builds for a subset of "
        "them into the two stores (exact and differently spelled names, prefix or none), and runs auto-patch from the repository, a sub-directory "
        "or elsewhere. An independent oracle computes the allowed predecessors; judged are the exact set of patch files, their content and the exit "
        "status, also with predecessors that are missing, cannot be fetched or are damaged. Distinct by current version, prefix, tags and availability.")
ASSUMPTIONS = ["which of two tags is the newer is only decided where their components are equal or both numeric; otherwise each of them is allowed",
               "of several builds whose names match a tag only loosely any may be used", "numeric components fit into 64 bits and have no sign"]


# ---------------------------------------------------------------- oracle

def comps(tag):
    return tuple(tag.lower().replace("-", ".").split("."))


def num(c):
    return int(c) if c.isascii() and c.isdigit() else None


def norm(c):
    """components that are numerically equal are equal"""
    n = num(c)
    return n if n is not None else c


def newer(a, b):
    """is tag a certainly newer than tag b?  True, False or None (undecided)"""
    x, y = comps(a), comps(b)
    for p, q in zip(x, y):
        if norm(p) == norm(q):
            continue
        m, n = num(p), num(q)
        if m is None or n is None:
            return None
        return m > n
    if len(x) == len(y):
        return None if a != b else False
    return None


def predecessors(current, tags):
    """for each component the set of tags that may be taken (empty: none exists)"""
    cur = comps(current)
    out = []
    for i in reversed(range(len(cur))):
        n = num(cur[i])
        if not n:
            continue
        series = [t for t in tags if len(comps(t)) > i and all(norm(a) == norm(b) for a, b in zip(comps(t)[:i], cur)) and num(comps(t)[i]) == n - 1]
        best = [t for t in series if not any(newer(o, t) for o in series)]
        if series:
            out.append(best)
    return out


def builds_for(tag, known):
    """the builds that may serve for a tag"""
    if tag in known:
        return [tag]
    return [v for v in known if comps(v) == comps(tag)]


# ---------------------------------------------------------------- workload

def spell(rng, t, wild=True):
    x = rng.random()
    if x < .6 or not wild:
        return t
    if x < .7:
        return t.replace(".", "-")
    if x < .8:
        return t.upper()
    if x < .9:
        return "".join(rng.choice(".-") if c in ".-" else c for c in t)
    return t.lower().replace("-", ".")


BIG = [255, 256, 257, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 20231115120000, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1]


def gen(rng, d):
    head = rng.choice(["", "", "v", "il", "IL", "app", "Rel-", "É", "Ä-", "rel_"])
    k = rng.choice([1, 2, 3, 3, 3, 4, 5])
    nums = [rng.choice([0, 1, 1, 2, 3, 9, 10, 11, 19, 20, 99, 100, 101, 2020] if rng.random() < .95 else BIG) for _ in range(k)]
    style = rng.choice(["plain", "plain", "text", "rc"])
    sep = rng.choice([".", ".", ".", "-"])

    def ver(ns, tail=""):
        s = head + str(ns[0])
        for x in ns[1:]:
            s += sep + str(x)
        return s + tail
    current = ver(nums)
    tags = set()
    near = [0, 1, 2, 7, 8, 9, 10, 11, 12, 98, 99, 100, 101, 1000] + (rng.sample(BIG, 3) if rng.random() < .15 else [])
    for i in range(k):
        if nums[i] == 0 and rng.random() < .8:
            continue
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            ns = nums[:i] + [max(0, nums[i] - 1)] + [rng.choice(near) for _ in nums[i + 1:]]
            x = rng.random()
            if x < .08 and len(ns) > 1:
                ns = ns[:-1]
            elif x < .16:
                ns.append(rng.choice([0, 1, 5, 10]))
            tags.add(ver(ns))
    for _ in range(rng.randint(0, 5)):     # unrelated and nearly related
        ns = [rng.choice([max(0, n + rng.choice([-2, -1, 0, 1])), n, rng.choice(near)]) for n in nums]
        tags.add(ver(ns))
    if style != "plain":
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(k)
            ns = [str(n) for n in nums]
            ns[i] = str(max(0, nums[i] - 1))
            j = rng.randrange(k)
            ns[j] = rng.choice(["x", "beta", "rc1", "1a", "a1", ns[j] + "rc", "*"[:0] + "latest"])
            tags.add(ver(ns))
    if rng.random() < .5:
        tags.add(current)
    if rng.random() < .3:
        tags.update(rng.sample(["garbage", "v", "1", "0", "release", "v1.5-1.beta.1", "latest", "é.1", "x.y.z", "0.0.0"], 2))
    if rng.random() < .25 and nums[-1] > 0:    # leading zeros
        ns = [str(n) for n in nums]
        ns[-1] = "0" * rng.choice([1, 1, 2, 3, 7]) + str(nums[-1] - 1)
        tags.add(ver(ns))
    if rng.random() < .2:
        ns = [("0" * rng.choice([0, 0, 1, 2, 5]) if j else "") + str(n) for j, n in enumerate(nums)]     # the first one has letters
        i = rng.randrange(1, k) if k > 1 else 0
        ns[i] = "0" * (rng.choice([0, 1, 4]) if i else 0) + str(max(0, nums[i] - 1))
        tags.add(ver(ns))
    if rng.random() < .2:      # other characters separate nothing
        for t in sorted(tags):
            if rng.random() < .5 and sep in t[len(head):]:
                i = rng.choice([i for i in range(len(head), len(t)) if t[i] == sep])
                tags.add(t[:i] + rng.choice("_+,") + t[i + 1:])
    if rng.random() < .15:
        tags.add("release/" + ver(nums))
        tags.add("nightly/" + ver([max(0, n - 1) for n in nums]))
    if rng.random() < .1 and tags:
        tags.add(rng.choice(sorted(tags)) + rng.choice(["/x", "/1", "-rc/2", "/a.5"]))
    tags = sorted({spell(rng, t, rng.random() < .5) for t in tags if not bad_ref(t)})
    tags = [t for t in tags if not bad_ref(t)]
    # directory/file conflicts between references are impossible
    tags = [t for t in tags if not any(o != t and o.startswith(t + "/") for o in tags)]
    if rng.random() < .04:     # many more
        h = rng.choice(["#n.", "aa-", "zz.", "0.0.0.0.0."])
        tags += [h + str(i) for i in range(rng.choice([100, 300, 1100, 2100]))]
    if rng.random() < .5:
        current = spell(rng, current)
    return current, tags


def bad_ref(t):
    return not t or ".." in t or t.startswith((".", "-")) or t.endswith((".", ".lock", "/")) or "---" in t or t.endswith("-") or "//" in t or "/." in t


def cases(tier, rng):
    n = 1200 if tier == "quick" else 30000
    out = []
    for i in range(n):
        out.append(dict(i=i, remote="s3" if i % 7 == 3 else "dir", avail=rng.choice(["all", "all", "all", "some", "some", "respelled", "both_spellings", "none", "damaged", "no_current", "empty"]),
                        prefix=rng.choice(["", "", "", "app-", "m-", "P", "x.y-", "mod_"]), where=rng.choice(["root", "root", "sub", "cwd", "gitdir", "env"])))
    return out


def obj(repo, kind, data):
    raw = b"%s %d\0" % (kind.encode(), len(data)) + data
    h = hashlib.sha1(raw).hexdigest()
    p = os.path.join(repo, ".git/objects", h[:2])
    os.makedirs(p, exist_ok=True)
    write(os.path.join(p, h[2:]), zlib.compress(raw, 1))
    return h


def make_repo(rng, w, tags, deep=True):
    """a repository written by hand (much faster than git): returns the names that tag a commit"""
    repo = os.path.join(w.src, "repo")
    g = os.path.join(repo, ".git")
    for p in ("objects/info", "objects/pack", "refs/heads", "refs/tags", "refs/remotes/origin"):
        os.makedirs(os.path.join(g, p))
    write(os.path.join(g, "HEAD"), b"ref: refs/heads/main\n")
    write(os.path.join(g, "config"), b"[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n")
    blob = obj(repo, "blob", b"content\n")
    tree_ = obj(repo, "tree", b"100644 f\0" + bytes.fromhex(blob))
    commits, parent = [], None
    for i in range(rng.randint(1, 6)):
        when = rng.choice([0, 1, -1, -10 ** 9, 2 ** 31, 2 ** 33]) if rng.random() < .15 else 1600000000 + rng.randint(-10 ** 8, 10 ** 8)
        par = [parent] if parent else []
        if parent and rng.random() < .3:      # a merge, of several others at times
            par = list(dict.fromkeys([parent] + rng.sample(commits, rng.randint(1, len(commits)))))
        c = "tree %s\n%sauthor a <a@b> %d +0000\ncommitter a <a@b> %d +0000\n\nc%d\n" % (tree_, "".join("parent %s\n" % p for p in par), when, when, i)
        parent = obj(repo, "commit", c.encode())
        commits.append(parent)
    write(os.path.join(g, "refs/heads/main"), parent.encode() + b"\n")
    packed, real_ = [], []

    def annotated(target, kind, name):
        return obj(repo, "tag", ("object %s\ntype %s\ntag %s\ntagger a <a@b> %d +0000\n\nm\n" % (target, kind, name, 1600000000 + rng.randint(0, 10 ** 8))).encode())
    refs = {}
    for t in tags:
        c = rng.choice(commits)
        x = rng.random()
        peel = None
        if x < .25:
            h, peel = annotated(c, "commit", t), c
        elif x < .29:
            h, peel = annotated(annotated(c, "commit", t), "tag", t), c
        elif x < .32 and deep:     # tags of other things are not versions
            h = rng.choice([blob, tree_, annotated(blob, "blob", t), annotated(tree_, "tree", t)])
            refs[t] = h
            loose(g, t, h)
            continue
        else:
            h = c
        real_.append(t)
        if h == parent and rng.random() < .3:      # a symbolic reference
            p = os.path.join(g, "refs/tags", t)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            write(p, b"ref: refs/heads/main\n")
        elif rng.random() < .5 and len(tags) < 200:
            loose(g, t, h)
        else:
            packed.append((t, h, peel))
    # references that are not tags
    for ref in ("refs/heads/", "refs/remotes/origin/", "refs/notes/", "refs/tagsx/"):
        if rng.random() < .3:
            for t in rng.sample(tags, min(2, len(tags))):
                for s in (t, t.replace("9", "8"), t + "1"):
                    if not bad_ref(s):
                        p = os.path.join(g, ref + s)
                        try:
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                        except (FileExistsError, NotADirectoryError):
                            continue
                        if not os.path.isdir(p):
                            write(p, rng.choice(commits).encode() + b"\n")
    if rng.random() < .2:      # names that are not valid text
        for t in (b"!\xff", b"!\xfe-1", b"~\xc3"[1:]):
            if rng.random() < .6:
                write(os.fsencode(os.path.join(g, "refs/tags/")) + t, rng.choice(commits).encode() + b"\n")
    lines = ["# pack-refs with: peeled fully-peeled sorted "]
    for t, h, peel in sorted(packed, key=lambda p: p[0].encode()):
        lines.append("%s refs/tags/%s" % (h, t))
        if peel:
            lines.append("^" + peel)
    if packed:
        write(os.path.join(g, "packed-refs"), ("\n".join(lines) + "\n").encode())
    os.makedirs(os.path.join(repo, "sub/dir"))
    return repo, real_


def loose(g, t, h):
    p = os.path.join(g, "refs/tags", t)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    write(p, h.encode() + b"\n")


def run(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    current, tags = gen(rng, d)
    pre = d["prefix"]
    repo, tags = make_repo(rng, w, tags)
    cb = pre + current
    # the builds
    names_ = {cb}
    av = d["avail"]
    for t in tags[:60]:
        if "/" in pre + t:
            continue
        x = rng.random()
        if av in ("all", "damaged", "no_current", "empty") or (av == "some" and x < .6):
            names_.add(pre + t)
        elif av in ("respelled", "both_spellings"):
            r = pre + t
            for c in (r.upper(), r.lower(), r.replace(".", "-"), r.replace("-", "."), r.swapcase()):
                if rng.random() < .3 and "---" not in c and not c.endswith("-"):
                    names_.add(c)
            if av == "both_spellings":
                names_.add(r)
    for _ in range(rng.randint(0, 3)):      # builds without a tag, also in the other name space
        names_.add(rng.choice(["other", "9.9.9", "zz-1", (current if pre else "app-" + current), "0.0.1"]))
    if pre and rng.random() < .5:
        names_.update(t for t in tags[:3] if "/" not in t)
    names_ = {n for n in names_ if "---" not in n and not n.endswith("-") and "/" not in n and n}
    if av == "no_current":
        names_.discard(cb)
    truth, c = {}, content(rng, 150)
    for n in sorted(names_):
        c = mutate(rng, c)
        while c in truth.values():
            c = mutate(rng, c)
        truth[n] = c
    preds = predecessors(current, tags)
    wanted = {t for p in preds for t in p}
    damaged = set()
    for n in truth:
        data = zs.compress(truth[n])
        x = rng.random()
        if av in ("damaged", "empty") and n != cb and any(comps(n) == comps(pre + t) for t in wanted) and rng.random() < .6:
            damaged.add(n)
            data = data[:len(data) // 2] if av == "damaged" else b""
            x = .9 if av == "empty" else x
        if x < .35:
            w.put_local(n + ".tar.zst", data)
        if x >= .25:
            w.remote.put(n + ".tar.zst", data)
    gone = set()
    if w.srv and av == "damaged":
        gone = {n for n in damaged if n + ".tar.zst" not in w.lfiles()}
        w.srv.hook = lambda q: s3mod.s3error(500, "InternalError") if q["kind"] == "GET" and q["key"].rsplit("/", 1)[-1][:-8] in gone else None
    known = {n for n in truth if not (av == "empty" and n in damaged)}
    # a patch that exists already
    l0 = w.lfiles()
    args = ["auto-patch"]
    cwd, env = None, None
    if d["where"] == "cwd":
        cwd = os.path.join(repo, "sub")
    else:
        args += ["--repo-root", dict(root=repo, sub=os.path.join(repo, "sub/dir"), gitdir=os.path.join(repo, ".git"), env=repo)[d["where"]]]
    if pre:
        args += ["--prefix", pre]
    if d["where"] == "env":
        env = dict(CI_COMMIT_REF_NAME=current)
    else:
        args.append(current)
    r = w.run(*args, cwd=cwd, env=env)
    what = "auto-patch to %r, prefix %r, tags %s, builds %s (%s%s)" % (current, pre, tags if len(tags) < 90 else "%s and %d more" % (tags[:20], len(tags) - 20), sorted(known)[:90], av, ", damaged %s" % sorted(damaged) if damaged else "")
    got = {n for n in w.lfiles() if is_patch(n) and n not in l0}
    if cb not in known:
        if r.ok or got:
            raise Violation("%s: the current build is missing, but: %s, patches %s" % (what, r, got))
        obs.count("refused")
        obs.key("no_current", current, tags)
        return
    if r.rc not in (0, 1) or r.rc < 0:
        raise Violation("%s: %s" % (what, r))
    # every predecessor: one of the allowed builds, or a failure
    options, must_fail, may_fail = [], False, False
    for p in preds:
        opts, fails = set(), 0
        for t in p:
            bs = builds_for(pre + t, known) if "/" not in pre + t else []
            if not bs:
                fails += 1
                opts.add(None)
            for b in bs:
                if b in damaged:
                    fails += 1
                    opts.add(None)
                else:
                    opts.add(patch_name(b, cb))
        options.append(opts)
    if not assignable(options, got, not r.ok):
        raise Violation("%s: patches %s and status %d, but the predecessors are %s, so that each of %s was to be taken from" % (
            what, sorted(got), r.rc, preds, [sorted(map(str, o)) for o in options]))
    w.check_artefacts({n: b for n, b in w.lfiles().items() if is_patch(n)}, truth, what)
    obs.count("patches_judged", len(got))
    obs.count("predecessors", len(preds))
    obs.count("failed_predecessors" if not r.ok else "all_predecessors_done")
    if w.remote.written(r):
        raise Violation("%s: wrote %s to the remote" % (what, w.remote.written(r)))
    if r.ok and got:      # repeated: nothing new
        b4 = w.lfiles()
        w.ok(*args, cwd=cwd, env=env)
        if w.lfiles() != b4:
            raise Violation("%s: repeated, it changed the local store" % what)
    obs.key(current, pre, tags, sorted(known), av, d["where"])
    obs.sample = dict(current=current, prefix=pre, tags=tags[:8], patches=sorted(got), status=r.rc, predecessors=preds)


def assignable(options, got, failed):
    """is there a choice, one per predecessor, that explains the patches and the status?"""
    if not options:
        return not got and not failed
    states = {(frozenset(), False)}
    for o in options:
        states = {(s | ({x} if x else set()), f or x is None) for s, f in states for x in o if x is None or x in got}
    return (frozenset(got), failed) in states
