"""Random version graphs with correct builds and patches, and the route oracle."""
import itertools
import zs, bpatch
from world import *


def gen(rng, k=None, npatches=None, pad=True, ensure_current_local=True, density=0.45):
    k = k or rng.randint(2, 6)
    vs = names(rng, k)
    truth = {}
    base = content(rng, rng.choice([40, 300, 2000]))
    for v in vs:
        base = mutate(rng, base)
        while base in truth.values():
            base = mutate(rng, base)
        truth[v] = base
    files = {}
    for v in vs:
        d = zs.pack(truth[v], rng)
        if pad and rng.random() < .7:
            d += zs.skippable(rng.choice([8, 60, 500, 4000]) + rng.randint(0, 400))
        files[v + ".tar.zst"] = d
    pairs = [p for p in itertools.permutations(vs, 2) if rng.random() < density]
    if rng.random() < .6:  # a full chain somewhere in the graph
        c = vs[:]
        rng.shuffle(c)
        pairs += list(zip(c, c[1:]))
    pairs = list(dict.fromkeys(pairs))
    used = set()
    for a, b in pairs:
        d = zs.pack(bpatch.encode(truth[a], truth[b], rng, rng.randint(1, 5)), rng)
        if pad:
            d += zs.skippable(rng.choice([8, 8, 100, 300, 900]) + rng.randint(0, 60))
        if patch_name(a, b) in used:
            continue
        used.add(patch_name(a, b))
        files[patch_name(a, b)] = d
    return dict(vs=vs, truth=truth, files=files, pairs=[p for p in pairs if patch_name(*p) in files])


def deep(rng, k):
    """A long chain of versions in an order unrelated to their names, with a few bypasses
    that are cheaper than, dearer than or as dear as what they skip; builds far larger."""
    names_ = ["%s%d" % (rng.choice("abvz"), i) for i in rng.sample(range(1000), k)]
    truth, c = {}, content(rng, 300)
    for v in names_:
        c = mutate(rng, c)
        while c in truth.values():
            c = mutate(rng, c)
        truth[v] = c
    files = {v + ".tar.zst": zs.compress(truth[v]) + zs.skippable(100000 + 100 * k) for v in names_}
    cost, pairs = {}, []
    def patch(a, b, size):
        d = zs.compress(bpatch.encode(truth[a], truth[b], rng, rng.randint(1, 3)))
        if size is not None and size >= len(d) + 8:
            d += zs.skippable(size - len(d))
        files[patch_name(a, b)] = d
        cost[a, b] = len(d)
        pairs.append((a, b))
    for a, b in zip(names_, names_[1:]):
        patch(a, b, rng.choice([None, 500, 1000]))
    for _ in range(rng.randint(0, 4)):
        i = rng.randrange(k - 2)
        j = min(k - 1, i + rng.choice([2, 2, 3, 8]))
        if (names_[i], names_[j]) not in cost:
            patch(names_[i], names_[j], sum(cost[p] for p in zip(names_[i:j], names_[i + 1:j + 1])) + rng.choice([-1, -1, 0, 1, -300, 300]))
    for _ in range(rng.randint(0, 3)):     # and back again
        i, j = sorted(rng.sample(range(k), 2))
        patch(names_[j], names_[i], None)
    return dict(vs=names_, truth=truth, files=files, pairs=pairs)


def tiny(rng):
    """Small graphs of the smallest patches there are, where routes differ by a few bytes."""
    k = rng.randint(3, 5)
    vs = names(rng, k)
    truth = {v: bytes(rng.choice(b"abcdef") for _ in range(3)) + bytes([48 + i]) for i, v in enumerate(vs)}
    files = {v + ".tar.zst": zs.compress(truth[v]) + zs.skippable(3000) for v in vs}
    least = {}
    for a, b in itertools.permutations(vs, 2):
        if patch_name(a, b) not in files:
            files[patch_name(a, b)] = zs.compress(bpatch.encode(truth[a], truth[b]))
            least[a, b] = len(files[patch_name(a, b)])
    keep = [(a, b) for a, b in least if vs.index(b) == vs.index(a) + 1 or rng.random() < .6]
    for a, b in least:
        if (a, b) not in keep:
            del files[patch_name(a, b)]
    for a, b in keep:                       # bypasses cost what they skip, give or take a little
        i, j = vs.index(a), vs.index(b)
        n = sum(least[p] for p in zip(vs[i:j], vs[i + 1:j + 1]) if p in least) if j > i + 1 else least[a, b] + rng.choice([0, 0, 8, 12])
        n += rng.randint(-6, 30) if j > i + 1 else 0
        if n >= least[a, b] + 8:
            files[patch_name(a, b)] += zs.skippable(n - least[a, b])
    return dict(vs=vs, truth=truth, files=files, pairs=keep)


def heavy(rng, g):
    """Makes the patches of a graph large (and the builds larger still)."""
    unit = rng.choice([150_000, 150_000, 1_100_000, 5_000_000])
    for n in g["files"]:
        if is_patch(n):
            g["files"][n] += zs.skippable(unit + rng.choice([0, 1, 777, unit // 3]))
        elif is_build(n):
            g["files"][n] += zs.skippable(unit * rng.choice([1, 2, 4, 9]))


def place(rng, g, w, cur=None, plocal=.3, pboth=.5, differ=0):
    """spreads the files over the stores; returns (local names, remote names)"""
    loc, rem = set(), set()
    style = rng.randrange(3)
    for n in g["files"]:
        x = rng.random()
        if style == 0:
            rem.add(n)
        elif x < plocal * (1 - pboth):
            loc.add(n)
        elif x < plocal:
            loc.add(n)
            rem.add(n)
        else:
            rem.add(n)
    if cur:
        n = cur + ".tar.zst"
        loc.add(n)
        if rng.random() < .2:
            rem.discard(n)
    more = {}
    for n in sorted(loc & rem):
        if differ and rng.random() < differ:   # the same content in another packing
            more[n, rng.random() < .5] = zs.skippable(rng.choice([8, 9, 30, 3000]))
    for n in sorted(loc):
        w.put_local(n, g["files"][n] + more.get((n, True), b""))
    for n in sorted(rem):
        w.remote.put(n, g["files"][n] + more.get((n, False), b""))
    return loc, rem


def route_oracle(w, vs, cur, target):
    """The allowed sets of fetched names, from what is in the stores right now. Where a
    piece has different sizes in the two stores either may count."""
    L, R = w.lfiles(), w.remote.files()
    lsize = {n: len(b) for n, b in L.items()}
    rsize = {n: w.srv.sizes.get(w.remote.key(n), len(b)) if w.srv else len(b) for n, b in R.items()}
    a, how = _routes(L, R, lambda n: lsize.get(n) or rsize.get(n, 0), vs, cur, target)
    if any(n in R and rsize[n] != x for n, x in lsize.items()):
        a = a + [x for x in _routes(L, R, lambda n: rsize.get(n) or lsize.get(n, 0), vs, cur, target)[0] if x not in a]
    return a, how


def _routes(L, R, size, vs, cur, target):
    bn = lambda v: v + ".tar.zst"
    known = [v for v in vs if size(bn(v))]
    if bn(target) in L or target not in known:
        return [frozenset()], "local"
    if cur is None or cur not in known:
        return [frozenset([bn(target)])], "fresh"
    edges = {}
    for a, b in itertools.permutations(known, 2):
        s = size(patch_name(a, b))
        if s:
            edges.setdefault(a, []).append((b, s))
    best, chains = None, []
    stack = [(cur, 0, (cur,))]
    while stack:
        v, c, path = stack.pop()
        if best is not None and c > best:
            continue
        if v == target:
            if best is None or c < best:
                best, chains = c, []
            chains.append(path)
            continue
        for b, s in edges.get(v, ()):
            if b not in path:
                stack.append((b, c + s, path + (b,)))
    if best is None or best >= size(bn(target)):
        return [frozenset([bn(target)])], "direct"
    out = []
    for p in chains:
        if len(p) and sum(dict(edges[a])[b] for a, b in zip(p, p[1:])) != best:
            continue
        last = max(i for i, v in enumerate(p) if bn(v) in L or i == 0)
        out.append(frozenset(n for n in (patch_name(a, b) for a, b in list(zip(p, p[1:]))[last:]) if n not in L))
    return out, "chain%d" % max(len(p) - 1 for p in chains)
