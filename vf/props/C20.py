import itertools
import graphs
from world import *

LEVEL = "exploration"
RULE = ("Each case is a history of 6-30 random commands (possible and impossible ones, repeated ones, and operators deleting, copying or re-packing files in between) on up to three "
        "machines that share a directory or S3 remote. Before each command a reference model of the documented behaviour predicts from the bare contents of the two stores whether the command "
        "succeeds, which files appear in which store with which bytes or content, and where `current` leads; afterwards both stores, every other machine's store, `current` and the exit "
        "status are compared with the prediction. Distinct by kind of command, predicted outcome and shape of the change.")
ASSUMPTIONS = ["a version always stands for the same content", "stores hold complete and correct artefacts only (the other cases belong to C06, C12 and C16)"]


def cases(tier, rng):
    n = 800 if tier == "quick" else 9000
    return [dict(kind="s3" if i % 4 == 3 else "dir", machines=1 + i % 3) for i in range(n)]


bn = lambda v: v + ".tar.zst"


class Model:
    def __init__(self, w, truth):
        self.w, self.truth = w, truth

    def known(self, L, R):
        return {n[:-8] for n in list(L) + list(R) if is_build(n)}

    def patches(self, S, K):
        """names in S of patches between builds of K"""
        return {n for n in S if is_patch(n) and any(patch_name(a, b) == n for a in K for b in K if a != b)}

    def installed(self, m, L):
        t = self.w.current(m)
        if t is None:
            return None
        p = os.path.realpath(os.path.join(m, t))
        n = os.path.basename(p)
        return n[:-8] if os.path.dirname(p) == os.path.realpath(m) and is_build(n) and n in L else None

    def routes(self, L, R, cur, t):
        """the allowed sets of names that an upgrade adds to the local store"""
        K = self.known(L, R)
        if bn(t) in L:
            return [frozenset()]
        direct = frozenset([bn(t)])
        if cur is None:
            return [direct]
        out = []
        for size in (lambda n: len(L[n]) if n in L else len(R.get(n, b"")), lambda n: len(R[n]) if n in R else len(L.get(n, b""))):
            edges = {}
            for a, b in itertools.permutations(K, 2):
                if size(patch_name(a, b)):
                    edges.setdefault(a, []).append((b, size(patch_name(a, b))))
            best, paths = None, []
            stack = [(cur, 0, (cur,))]
            while stack:
                v, c, p = stack.pop()
                if best is not None and c > best:
                    continue
                if v == t:
                    if best is None or c < best:
                        best, paths = c, []
                    paths.append((c, p))
                    continue
                stack += [(b, c + s, p + (b,)) for b, s in edges.get(v, ()) if b not in p]
            if best is None or best >= size(bn(t)):
                out.append(direct)
                continue
            for c, p in paths:
                if c == best:
                    last = max(i for i, v in enumerate(p) if bn(v) in L)
                    new = set()
                    for a, b in list(zip(p, p[1:]))[last:]:
                        new |= {bn(b)} | ({patch_name(a, b)} - set(L))
                    out.append(frozenset(new))
        return out


def setup_stores(d, w, rng):
    w.use(d["kind"])
    ms = [w.local] + [w.machine("local%d" % i) for i in range(2, d["machines"] + 1)]
    vs = names(rng, rng.randint(4, 7))
    if rng.random() < .3:     # names that are easily mixed up
        vs = list(dict.fromkeys(vs[:2] + rng.choice([["a", "A", "a-b", "a.b", "b", "a--b"], ["1", "1.0", "01", "1-0", "0"], ["v1.2.3", "V1.2.3", "v1.2.3.tar", "v1.2.3.patch", "v1"], ["x", "x.", ".x", "x.tar.zst", "x-y", "y"]])))
    truth, c = {}, content(rng, rng.choice([40, 900, 9000]))
    for v in vs:
        c = mutate(rng, c)
        while c in truth.values():
            c = mutate(rng, c)
        truth[v] = c
    pub = rng.sample(vs, rng.randint(0, len(vs)))
    for v in pub:
        w.remote.put(bn(v), zs.pack(truth[v], rng) + (zs.skippable(rng.choice([300, 3000])) if rng.random() < .7 else b""))
    for a, b in itertools.permutations(pub, 2):
        if rng.random() < .3:
            w.remote.put(patch_name(a, b), zs.pack(bpatch.encode(truth[a], truth[b], rng, rng.randint(1, 3)), rng))
    return ms, vs, truth


def interfere(w, rng, ms, vs, truth):
    """what operators do by hand"""
    m = rng.choice(ms)
    k = rng.choice(["rm_local", "rm_local", "rm_remote", "rm_current", "copy", "repack", "dangling", "put"])
    L, R = [n for n in w.lfiles(m)], list(w.remote.files())
    if k == "rm_local" and L:
        os.unlink(os.path.join(m, rng.choice(L)))
    elif k == "rm_remote" and R:
        w.remote.delete(rng.choice(R))
    elif k in ("rm_current", "dangling") and w.current(m):
        os.unlink(os.path.join(m, "current"))
        if k == "dangling":
            os.symlink(os.path.join(m, bn("gone")), os.path.join(m, "current"))
    elif k == "copy" and L:
        n = rng.choice(L)
        if n not in R:
            w.remote.put(n, w.lfiles(m)[n])
    elif k == "repack" and L:
        n = rng.choice(L)
        x = zs.decompress(w.lfiles(m)[n])
        w.put_local(n, zs.pack(x, rng) + zs.skippable(rng.choice([8, 500])), m)
    elif k == "put":
        v = rng.choice(vs)
        w.put_local(bn(v), zs.pack(truth[v], rng), m)
    return k


def run(d, w, obs):
    rng = w.rng
    ms, vs, truth = setup_stores(d, w, rng)
    M = Model(w, truth)
    hist, last = [], None
    for step in range(rng.choice([6, 12, 20, 30])):
        if rng.random() < .2:
            hist.append(interfere(w, rng, ms, vs, truth))
        m = rng.choice(ms)
        if last and rng.random() < .15:
            m, args, kind, info = last
        else:
            args, kind, info = command(w, rng, m, vs, truth)
        L, R, cur0 = w.lfiles(m), dict(w.remote.files()), w.current(m)
        others = {x: (w.lfiles(x), w.current(x)) for x in ms if x != m}
        want = predict(M, m, L, R, kind, info, cur0)
        src0 = tree(w.src)
        r = w.run(*args, local=m)
        hist.append("%s%s" % (kind, "" if want["ok"] else "!"))
        what = "step %d of [%s]: %s with local %s, remote %s, `current` -> %r" % (step, ", ".join(hist[-6:]), " ".join(map(ascii, args)), sorted(L), sorted(R), cur0 and os.path.basename(cur0))
        judge(w, M, m, L, R, cur0, want, r, what, obs, kind, info)
        for x, (l, c) in others.items():
            if w.lfiles(x) != l or w.current(x) != c:
                raise Violation("%s: changed another machine's store" % what)
        if tree(w.src) != src0:
            raise Violation("%s: changed its sources" % what)
        if kind == "add-package" and info["v"] not in truth and bn(info["v"]) in w.lfiles(m):
            truth[info["v"]] = zs.decompress(w.lfiles(m)[bn(info["v"])])
            vs.append(info["v"])
        last = (m, args, kind, info)
        if obs.sample is None and step > 4:
            obs.sample = dict(history=hist[:], local=sorted(w.lfiles(m)), remote=sorted(w.remote.files()))


ILLEGAL = ["a---b", "x-", "a/b", "../x", "a---", "/abs", "a---b---c", "..", "."]


def command(w, rng, m, vs, truth):
    v = lambda: rng.choice(vs) if rng.random() < .93 else rng.choice(["nope", "1.2.3.4", "", "a---b", "../" + vs[0], vs[0] + " ", vs[0].upper() + "x"])
    k = rng.choice(["install"] * 7 + ["create-patch"] * 3 + ["add"] * 3 + ["add-package", "sync", "sync", "debug"])
    if k == "install":
        t = v()
        return ["install", "--", t], k, dict(t=t)
    if k == "create-patch":
        a, b = v(), v()
        return ["create-patch", "--", a, b], k, dict(a=a, b=b)
    if k in ("sync", "debug"):
        return [k], k, {}
    info = dict(calc=None, upload=rng.random() < .4)
    opts = ["--upload"] if info["upload"] else []
    if rng.random() < .5:
        info["calc"] = v()
        opts += ["--calc-patch-from=" + info["calc"]]
    if k == "add":
        t = rng.choice(vs) if rng.random() < .9 else rng.choice(["a---b", "x-", "---"])
        f = os.path.join(w.src, bn(t))
        info.update(v=t, file=f, bad=None)
        x = rng.random()
        if os.path.lexists(f):
            os.unlink(f)
        if x < .06:
            info["bad"] = "missing"
        elif x < .1:
            write(f, b"")
            info["bad"] = "empty"
        else:
            write(f, zs.pack(truth.get(t, b"x"), rng) + (zs.skippable(rng.choice([8, 400])) if rng.random() < .3 else b""))
        info["data"] = read(f)
        return ["add", *opts, f], k, info
    i = len(vs)
    t = rng.choice(["pkg%d" % i, "pkg-%d.x" % i]) if rng.random() < .85 else rng.choice(ILLEGAL)
    if t in truth:
        t = "pkg%d" % i
    f = os.path.join(w.src, "p%d" % i)
    info.update(v=t, file=f, bad=None, data=None)
    if not os.path.lexists(f):
        os.mkdir(f)
        for n in range(rng.randint(0, 3)):
            write(os.path.join(f, "f%d" % n), content(rng, 300), rng.choice([0o644, 0o755]))
    if rng.random() < .08:
        info["bad"] = "missing"
        f += ".missing"
    return ["add-package", *opts, "--", t, f], k, info


def legal(v):
    """what the documentation and C14 say about names"""
    return "---" not in v and "/" not in v and not v.endswith("-")


def predict(M, m, L, R, kind, info, cur0):
    """ok: must succeed; L: allowed sets of names that appear locally; Lopt: names that may appear or
    be written again; R: names that appear remotely; Ropt: names that may; cur: version that `current` leads to"""
    K = M.known(L, R)
    no = dict(ok=False, L=[frozenset()], Lopt=set(), R=set(), Ropt=set(), cur=None, exact={})
    yes = dict(no, ok=True)
    if kind == "debug":
        return yes
    if kind == "install":
        t = info["t"]
        if t not in K:
            return no
        cur = M.installed(m, L)
        if cur == t:
            return yes
        return dict(yes, L=M.routes(L, R, cur, t), cur=t)
    if kind == "create-patch":
        a, b = info["a"], info["b"]
        if a == b:
            return no
        if a not in K or b not in K:
            return dict(no, Lopt={bn(x) for x in (a, b) if x in K})
        return dict(yes, L=[frozenset({bn(a), bn(b), patch_name(a, b)} - set(L))])
    if kind == "sync":
        return dict(yes, R={n for n in L if n not in R and (is_build(n) or n in M.patches(L, K))})
    v, calc = info["v"], info["calc"]
    if info["bad"] or not legal(v) or v == "" or calc is not None and not legal(calc):
        return no
    after = {bn(v)}
    exact = {bn(v): info["data"]} if info["data"] is not None else {}
    if calc is not None:
        if calc == v or calc not in K | {v}:
            return dict(no, Lopt=after, exact=exact)
        pn = patch_name(calc, v)
        after |= {pn}
        if not (v in K and (pn in L or pn in R)):      # otherwise the patch is there already
            after |= {bn(calc)}
    new = after - set(L)
    out = dict(yes, L=[frozenset(new)], Lopt={bn(v)}, exact=exact)
    if calc is not None and v not in K:
        out["Lopt"] = {bn(v), pn}       # a patch of a build that nobody knew is made again
    if info["upload"]:
        local = set(L) | after
        out["R"] = {n for n in local if n not in R and (is_build(n) or n in M.patches(L, K) or calc is not None and n == pn)}
        # patches that were there before their build
        out["Ropt"] = {n for n in L if is_patch(n) and n not in R} | (out["Lopt"] - {bn(v)})
        if v not in K and calc is not None and pn in R:
            out["Ropt"].add(pn)
    return out


def judge(w, M, m, L, R, cur0, want, r, what, obs, kind, info):
    if r.ok != want["ok"] or r.rc not in (0, 1, 2):
        raise Violation("%s: must %s: %s" % (what, "succeed" if want["ok"] else "fail", r))
    L1, R1 = w.lfiles(m), dict(w.remote.files())
    truth = dict(M.truth)
    if kind == "add-package" and info["v"] not in truth and (r.ok or bn(info["v"]) in L1):
        x = zs.try_decompress(L1.get(bn(info["v"]), b""))
        if not x:
            raise Violation("%s: no complete build came out of it" % what)
        truth[info["v"]] = x
    # local store
    lost = set(L) - set(L1)
    if lost:
        raise Violation("%s: local %s disappeared" % (what, sorted(lost)))
    new = frozenset(L1) - frozenset(L)
    if not any(x <= new and new - x <= want["Lopt"] for x in want["L"]):
        raise Violation("%s: local store got %s instead of %s" % (what, sorted(new), " or ".join(str(sorted(x)) for x in want["L"])))
    for n in L:
        if L1[n] != L[n] and n not in want["Lopt"]:
            raise Violation("%s: changed local %r" % (what, n))
    w.check_artefacts({n: L1[n] for n in L1 if n in new or L1[n] != L.get(n)}, truth, what)
    for n, x in want["exact"].items():
        if r.ok and L1[n] != x:
            raise Violation("%s: local %r does not consist of the bytes of the file" % (what, n))
    for n in new:
        if n in R and n not in want["exact"] and n not in want["Lopt"] and not (kind == "install" and is_build(n) and any(map(is_patch, new | set(L)))) and L1[n] != R[n]:
            raise Violation("%s: %r fetched from the remote differs from it" % (what, n))
    stray = [n for n in w.stray(m)]
    if stray:
        raise Violation("%s: left %s in the local store" % (what, stray))
    # remote
    if set(R) - set(R1) or any(R1[n] != R[n] and n not in want["Ropt"] for n in R):
        raise Violation("%s: changed or removed remote %s" % (what, [n for n in R if R1.get(n) != R[n]]))
    rnew = set(R1) - set(R)
    if not (want["R"] <= rnew and rnew - want["R"] <= want["Ropt"]):
        raise Violation("%s: the remote got %s instead of %s" % (what, sorted(rnew), sorted(want["R"])))
    for n in R1:
        if R1[n] != R.get(n) and R1[n] != L1.get(n):
            raise Violation("%s: remote %r differs from the local one" % (what, n))
    # current
    if want["cur"] is not None:
        w.check_current(want["cur"], m, what)
    elif w.current(m) != cur0:
        raise Violation("%s: `current` changed from %r to %r" % (what, cur0, w.current(m)))
    obs.count("commands_predicted")
    obs.count("predicted_success" if want["ok"] else "predicted_failure")
    obs.count("artefacts_appeared", len(new) + len(rnew))
    obs.key(kind, want["ok"], sum(map(is_build, new)), sum(map(is_patch, new)), sum(map(is_build, rnew)), sum(map(is_patch, rnew)), bool(info.get("calc")), info.get("upload"),
            info.get("bad"), cur0 is not None, w.remote.kind, len(want["L"]))
