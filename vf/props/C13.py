import urllib.parse
import s3 as s3mod
from world import *

LEVEL = "exploration"
RULE = ("Each case fills a bucket of the fake S3 server with builds and patches under a prefix (none, one or several levels, with and without "
        "trailing slashes) and with neighbours (prefixes that begin alike, nested deeper, higher up, objects named like the prefix, directory markers), "
        "splits listings into pages of a chosen size, and runs installs of builds from first to last page, installs of what only neighbours have, "
        "syncs and uploads of what only neighbours have, round trips between machines, and listings of which one page fails or does not say how to go on. Judged are exit status, content, the exact "
        "keys of all requests, the pages asked for, and that the neighbours are untouched. Distinct by prefix, page size, numbers of objects and neighbours, and command.")
ASSUMPTIONS = ["prefixes consist of characters that need no escaping in a URL", "keys and names contain no characters that XML 1.0 cannot express"]
PREFIXES = ["", "/", "st", "st/", "st/ore", "st/ore/", "/st/ore", "a/b/c/d", "test", "st.ore-1_2~", "x/y/", "1", "tar.zst", "A", "st/ore.tar.zst", "..ore", "k---v", "st/st/st", "a//b", "a///b//c/", "/".join(["p" * 50] * 16)]
ODD = ["1", "2", "10", "v1.2.3", "m-1", "m-2", "rel 1", "a+b", "100%", "a&b", "a=b", "q?", "x#y", "ä", "日本語", "a'b", 'q"q', "<t>", "semi;colon", "at@", "a:b", "co,ma", "(p)", "[s]",
       "{c}", "ti~lde", "dol$", "ex!", "st*r", "back\\slash", "pi|pe", "ca^ret", "gr`ave", "%41", "%2F", "+", " ", "  lead", ".dot", "..", "..x", "😀", "é", "e\u0301", "a%20b",
       "st", "ore", "current", "x.tar", "x.patch", "&amp;", "]]>"]


def cases(tier, rng):
    cs = []
    n = 10 if tier == "quick" else 150
    for r in range(n):
        for p in PREFIXES:
            for m in ("list", "neighbours", "upload", "roundtrip") + (("broken",) if r < n // 2 else ()):
                cs.append(dict(mode=m, prefix=p, page=rng.choice([1, 2, 3, 5, 7, 1000]), r=r))
    for page, k in ([(1000, 12500), (1000, 1003), (7, 120), (1, 40), (1000, 2501), (1, 270)] if tier == "quick" else [(1000, 999), (1000, 1000), (1000, 1001), (1000, 2000), (1000, 3500), (1, 300), (13, 1300), (1000, 12500), (1000, 70001), (1, 1100), (100, 10100)]):
        cs.insert(0, dict(mode="many", prefix=rng.choice(["", "st/ore"]), page=page, k=k, r=0))
    return cs


def url(p):
    return "s3://bkt.localhost" + ("" if not p else p if p.startswith("/") else "/" + p)


def clean(p):
    return p.strip("/")


def put(w, key, data):
    w.srv.objects[key] = data


def neighbours(w, rng, pre, names_, keyed=None):
    """objects that are not in the store; name -> key"""
    spots = ["%s2/" % pre, "%s-x/" % pre, "%s" % pre, "%s/sub/" % pre, "%s/sub/deeper/" % pre, "other/%s/" % pre, "x%s/" % pre, "%s/%s/" % (pre, pre), "%s.tar.zst/" % pre,
             "%s//" % pre, "/%s/" % pre] if pre else ["sub/", "a/b/", "st/ore/", "/", "1.tar.zst/"]
    if "/" in pre:
        spots += [pre.rsplit("/", 1)[0] + "/", "", pre.rsplit("/", 1)[0] + "/" + pre.rsplit("/", 1)[1][:-1] + "/"]
    elif pre:
        spots += ["", pre[:-1] + "/"]
    if "//" in pre:
        spots.append("/".join(x for x in pre.split("/") if x) + "/")
    if pre.swapcase() != pre:
        spots.append(pre.swapcase() + "/")
    spots = [s for s in spots if s != (pre + "/" if pre else "") and s != "/" + pre + "/" * 0]
    out = {}
    for n in names_:
        for s in rng.sample(spots, rng.randint(1, len(spots))):
            k = s + n
            if pre and k.startswith(pre + "/") and "/" not in k[len(pre) + 1:]:
                continue
            if not pre and "/" not in k:
                continue
            out[k] = n
    return out


def markers(w, rng, pre):
    out = {}
    if pre:
        if rng.random() < .4:
            out[pre + "/"] = b""
        if rng.random() < .4:
            out[pre] = b"an object named like the prefix"
        if rng.random() < .3:
            out[pre + "/sub/"] = b""
    elif rng.random() < .4:
        out["dir/"] = b""
    return out


def keys_ok(w, r, pre, what, gets=None, puts=None):
    p = pre + "/" if pre else ""
    lists = [q for q in r.requests if q["kind"] == "LIST"]
    if not lists:
        raise Violation("%s: the bucket was not listed" % what)
    for q in r.requests:
        if q["bucket"] != w.srv.bucket:
            raise Violation("%s: request to bucket %r" % (what, q["bucket"]))
        if q["kind"] in ("GET", "PUT"):
            n = q["key"][len(p):]
            if not q["key"].startswith(p) or "/" in n:
                raise Violation("%s: %s of %r, which is not in the store %r" % (what, q["kind"], q["key"], p))
            want = gets if q["kind"] == "GET" else puts
            if want is not None and n not in want:
                raise Violation("%s: %s of %r, expected %s" % (what, q["kind"], q["key"], sorted(want)))
        elif q["kind"] not in ("LIST", "HEAD"):
            raise Violation("%s: unexpected request %s %r" % (what, q["kind"], q["key"]))


def run(d, w, obs):
    rng = w.rng
    pre = clean(d["prefix"])
    w.use_s3(pre, url(d["prefix"]))
    w.srv.page, w.srv.blank_pages = d["page"], rng.random() < .3
    p = pre + "/" if pre else ""
    what = "store %r, pages of %d" % (url(d["prefix"]), d["page"])
    if d["mode"] == "many":
        return many(d, w, obs, p, what)
    vs = rng.sample(ODD, rng.randint(2, 8))
    truth = {}
    c = content(rng, 200)
    for v in vs:
        c = mutate(rng, c)
        while c in truth.values():
            c = mutate(rng, c)
        truth[v] = c
    mine = {v + ".tar.zst": zs.compress(truth[v]) + zs.skippable(3000) for v in vs}
    if d["mode"] == "broken":
        return broken(d, w, obs, p, what, mine)
    if d["mode"] == "roundtrip":
        return roundtrip(d, w, obs, p, what, vs, truth)
    for n, b in mine.items():
        put(w, p + n, b)
    foreign = {}
    for k, n in neighbours(w, rng, pre, ["nb-1.tar.zst", "nb-2.tar.zst", vs[0] + ".tar.zst", patch_name(vs[0], vs[1])]).items():
        foreign[k] = zs.compress(b"foreign " + k.encode())
    foreign.update(markers(w, rng, pre))
    for k in list(foreign):
        if k in w.srv.objects:
            del foreign[k]
    w.srv.objects.update(foreign)
    if rng.random() < .2:      # very large neighbours
        for k in foreign:
            w.srv.sizes[k] = rng.choice([2 ** 31, 2 ** 32 - 1, 2 ** 32, 5 * 2 ** 40])

    def untouched(why):
        for k, b in foreign.items():
            if w.srv.objects.get(k) != b:
                raise Violation("%s: %s touched the foreign object %r" % (what, why, k))

    if d["mode"] == "list":
        order = vs[:]
        rng.shuffle(order)
        for v in order:
            m = os.path.join(w.root, "m%d" % obs.n["installs"])
            os.mkdir(m)
            r = w.ok("install", v, local=m)
            w.check_current(v, m, what)
            if w.lfiles(m)[v + ".tar.zst"] != mine[v + ".tar.zst"]:
                raise Violation("%s: install of %r brought something else" % (what, v))
            keys_ok(w, r, pre, what + ", install", {v + ".tar.zst"}, ())
            obs.count("installs")
        check_pages(w, r, what, obs)
        # what only neighbours have is unknown
        for v in ("nb-1", "nb-2"):
            r = w.run("install", v)
            if r.ok or w.lfiles() or any(q["kind"] == "GET" for q in r.requests):
                raise Violation("%s: install of %r, which only other prefixes have: %s" % (what, v, r))
            obs.count("foreign_installs_refused")
        untouched("install")
    elif d["mode"] == "neighbours":
        # a patch that exists under other prefixes only must not be used; one that exists must be
        pn = patch_name(vs[0], vs[1])
        real = rng.random() < .5
        if real:
            put(w, p + pn, zs.compress(bpatch.encode(truth[vs[0]], truth[vs[1]], rng)))
        n0, n1 = vs[0] + ".tar.zst", vs[1] + ".tar.zst"
        w.ok("install", vs[0])
        r = w.ok("install", vs[1])
        w.check_current(vs[1], what=what)
        if zs.try_decompress(w.lfiles()[n1]) != truth[vs[1]]:
            raise Violation("%s: wrong content after upgrade" % what)
        use_patch = real and len(w.srv.objects[p + pn]) < len(mine[n1])
        keys_ok(w, r, pre, what + ", upgrade", {pn} if use_patch else {n1}, ())
        untouched("upgrade")
    else:
        # things that only neighbours have are missing here and have to be uploaded; the rest not
        L = {"nb-1.tar.zst": zs.compress(b"mine 1"), "nb-2.tar.zst": zs.compress(b"mine 2"), vs[0] + ".tar.zst": b"not the same", vs[1] + ".tar.zst": mine[vs[1] + ".tar.zst"],
             patch_name(vs[0], vs[1]): zs.compress(b"patch"), "new %d+&.tar.zst" % d["r"]: zs.compress(b"mine 3")}
        for n, b in L.items():
            w.put_local(n, b)
        exp = {n for n in L if n not in mine}
        args = ["sync"]
        if rng.random() < .4:
            f = os.path.join(w.src, "up=1.tar.zst")
            write(f, zs.compress(b"up"))
            exp.add("up=1.tar.zst")
            args = ["add", f, "--upload"]
        r = w.ok(*args)
        keys_ok(w, r, pre, what + ", " + args[0], (), exp)
        L = w.lfiles()
        for n in exp:
            if w.srv.objects.get(p + n) != L[n]:
                raise Violation("%s: %r was not uploaded to %r" % (what, n, p + n))
        for n, b in mine.items():
            if w.srv.objects.get(p + n) != b:
                raise Violation("%s: %r was changed" % (what, p + n))
        if set(w.srv.objects) != set(foreign) | {p + n for n in exp} | {p + n for n in mine}:
            raise Violation("%s: keys %s appeared" % (what, sorted(set(w.srv.objects) - set(foreign) - {p + n for n in exp} - {p + n for n in mine})))
        untouched("upload")
        check_pages(w, r, what, obs)
        r = w.ok("sync")
        keys_ok(w, r, pre, what + ", second sync", (), ())
        obs.count("uploads_judged", len(exp))
    obs.count("foreign_objects", len(foreign))
    obs.key(d["mode"], d["prefix"], d["page"], len(vs), len(foreign), d["r"])
    obs.sample = dict(mode=d["mode"], url=url(d["prefix"]), page=d["page"], mine=len(mine), foreign=sorted(foreign)[:5])


def check_pages(w, r, what, obs):
    obs.count("pages", sum(q["kind"] == "LIST" for q in r.requests))


def roundtrip(d, w, obs, p, what, vs, truth):
    """what one machine uploads another one can list and install through the same URL"""
    rng = w.rng
    a, b = w.machine("a"), w.machine("b")
    alt = url(rng.choice([x for x in PREFIXES if clean(x) == clean(d["prefix"])]))
    for i, v in enumerate(vs):
        f = os.path.join(w.src, v + ".tar.zst")
        write(f, zs.compress(truth[v]) + zs.skippable(4000))
        w.ok("add", f, *(["--calc-patch-from", vs[i - 1]] if i else []), local=a)
    r = w.ok("sync", local=a)
    exp = {v + ".tar.zst" for v in vs} | {patch_name(x, y) for x, y in zip(vs, vs[1:])}
    if set(w.srv.objects) != {p + n for n in exp}:
        raise Violation("%s: after the upload there are %s instead of %s" % (what, sorted(w.srv.objects), sorted(p + n for n in exp)))
    first = True
    for v in vs:
        r = w.ok("install", v, local=b, remote=alt)
        w.check_current(v, b, what)
        got = w.lfiles(b)[v + ".tar.zst"]
        if zs.try_decompress(got) != truth[v]:
            raise Violation("%s: the other machine got wrong content for %r" % (what, v))
        f = w.remote.fetched(r)
        want = {v + ".tar.zst"} if first else None
        keys_ok(w, r, clean(d["prefix"]), what + ", other machine", want, ())
        if not first and not any(is_patch(x) for x in f) and not any(is_build(x) for x in f):
            raise Violation("%s: nothing was fetched for %r" % (what, v))
        first = False
        obs.count("installs")
    # the other machine sees the upload as present
    r = w.ok("sync", local=b, remote=alt)
    keys_ok(w, r, clean(d["prefix"]), what + ", sync back", (), ())
    obs.count("roundtrips")
    obs.key("roundtrip", d["prefix"], d["page"], len(vs), d["r"])


def broken(d, w, obs, p, what, mine):
    """one page of the listing is not to be had: what it would have named must not count as missing"""
    rng = w.rng
    for i in range(rng.randint(0, 9)):
        mine["extra%d.tar.zst" % i] = zs.compress(b"extra %d" % i)
    for n, b in mine.items():
        put(w, p + n, b)
    w.srv.page = d["page"] = rng.randint(1, max(1, len(mine) - 1))
    w.srv.blank_pages = False
    order = sorted(mine, key=lambda n: (p + n).encode())
    last = -(-len(order) // w.srv.page)
    for _ in range(3):
        at = rng.randint(1, last)
        how = rng.choice(["notoken", "403", "404", "500", "drop"])
        if at == last and how == "notoken":
            at = last - 1
        seen = [0]

        def hook(r):
            if r["kind"] != "LIST":
                return None
            if not r["query"].get("continuation-token"):
                seen[0] = 0
            seen[0] += 1
            if how == "drop" and seen[0] >= at:
                return s3mod.Answer(drop=True)
            if seen[0] != at:
                return None
            if how == "notoken":
                a = w.srv.listing(r["query"])
                i, j = a.body.index(b"<NextContinuationToken>"), a.body.index(b"</NextContinuationToken>")
                return s3mod.Answer(200, a.body[:i] + a.body[j + 24:], a.headers)
            seen[0] -= 1      # for when the page is asked for again
            return s3mod.s3error(int(how), {"403": "AccessDenied", "404": "NoSuchBucket", "500": "InternalError"}[how])
        before = dict(w.srv.objects)
        # at the failing page itself everything but its follow-up is known
        hidden = order[(at if how == "notoken" else at - 1) * w.srv.page:]
        m = os.path.join(w.root, "b%d" % obs.n["broken_listings"])
        os.mkdir(m)
        for n in rng.sample(hidden, rng.randint(1, len(hidden))):
            write(os.path.join(m, n), b"a local one of the same name")
        if rng.random() < .5:
            write(os.path.join(m, "new.tar.zst"), zs.compress(b"new"))
        L = w.lfiles(m)
        fresh = os.path.join(w.root, "f%d" % obs.n["broken_listings"])
        os.mkdir(fresh)
        for args, loc, had in ((["sync"], m, L), (["install", rng.choice(hidden)[:-8]], fresh, {}), (["debug"], m, L)):
            w.srv.hook = hook
            r = w.run(*args, local=loc)
            w.srv.hook = None
            if any(q["kind"] not in ("LIST", "HEAD") for q in r.requests):
                raise Violation("%s: page %d of the listing is bad (%s), yet %s requested %s" % (what, at, how, args, [(q["kind"], q["key"]) for q in r.requests if q["kind"] != "LIST"]))
            if r.ok:
                raise Violation("%s: page %d of %d of the listing is bad (%s), yet %s succeeded: %s" % (what, at, last, how, args, r))
            if w.lfiles(loc) != had or w.srv.objects != before:
                raise Violation("%s: %s with a bad listing (%s) changed a store" % (what, args, how))
        obs.count("broken_listings")
        obs.key("broken", d["prefix"], how, at, last)
    obs.sample = dict(mode="broken", url=url(d["prefix"]), pages=last, objects=len(mine))


def many(d, w, obs, p, what):
    rng = w.rng
    k = d["k"]
    b = zs.compress(b"content")
    vs = ["v%05d" % i for i in range(k)]
    for v in vs:
        put(w, p + v + ".tar.zst", b + v.encode())
    for v in {0, 1, d["page"] - 1, d["page"], d["page"] + 1, k - 1, k // 2, rng.randrange(k)}:
        if not 0 <= v < k:
            continue
        m = os.path.join(w.root, "m%d" % v)
        os.mkdir(m)
        r = w.ok("install", vs[v], local=m)
        w.check_current(vs[v], m, what)
        if w.lfiles(m) != {vs[v] + ".tar.zst": b + vs[v].encode()}:
            raise Violation("%s: install of object %d of %d went wrong" % (what, v, k))
        pages = sum(q["kind"] == "LIST" for q in r.requests)
        if pages < -(-k // min(1000, d["page"])):
            raise Violation("%s: only %d pages for %d objects were asked for" % (what, pages, k))
        obs.count("installs")
        obs.count("pages", pages)
        obs.key("many", d["prefix"], d["page"], k, v)
    # all of them count as present
    m = w.machine("mm")
    for v in vs:
        write(os.path.join(m, v + ".tar.zst"), b"other")
    r = w.ok("sync", local=m)
    keys_ok(w, r, clean(d["prefix"]), what + ", sync of present builds", (), ())
    obs.sample = dict(mode="many", objects=k, page=d["page"], prefix=d["prefix"])
