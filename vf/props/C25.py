import re
import ops, graphs
from props import C16
from world import *

LEVEL = "exploration"
RULE = ("`debug` on random version graphs spread over the two stores, with foreign files, odd names, empty files and damaged contents in between: what it prints is parsed and compared with an independent "
        "reading of both stores. Commands that must fail (unknown and equal versions, missing sources, illegal names, unusable stores, wrong arguments) commands whose file-system calls fail by injection and commands whose requests the server refuses: status 1, an error "
        "message that names what is concerned or the reason that the system or server gave, and nothing on standard output. Commands that succeed: no error message. Help and version in every form and wrong usage in every form, with and without "
        "stores: status, stream, and no file-system call below the stores. Distinct by kind, command and message.")
ASSUMPTIONS = ["one of the names of a file, version or system error occurs literally in the message", "names of the versions printed consist of printable characters"]


def cases(tier, rng):
    q = tier == "quick"
    cs = [dict(act="debug", i=i, remote="s3" if i % 3 == 2 else "dir") for i in range(1000 if q else 6000)]
    cs += [dict(act="fail", i=i, remote="s3" if i % 4 == 2 else "dir") for i in range(150 if q else 1500)]
    cs += [dict(act="fault", op=k, i=i, remote="s3" if (i + j) % 5 == 2 else "dir") for i in range(4 if q else 40) for j, k in enumerate(sorted(set(ops.ALL)))]
    cs += [dict(act="good", op=k, i=i, remote="s3" if (i + j) % 4 == 2 else "dir") for i in range(4 if q else 30) for j, k in enumerate(sorted(set(ops.ALL)))]
    cs += [dict(act="denied", i=i, remote="s3", op=k) for i in range(8 if q else 60) for k in ("install", "sync", "debug", "create", "upload")]
    cs += [dict(act="usage", i=i) for i in range(80 if q else 800)]
    return cs


ESC = re.compile(r"\\(?:u\{([0-9a-f]+)\}|(.))", re.S)
STR = r'"((?:[^"\\]|\\.)*)"'


def unrust(s):
    return ESC.sub(lambda m: chr(int(m[1], 16)) if m[1] else {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(m[2], m[2]), s)


def debug(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    g = graphs.gen(rng, rng.choice([0, 1, 2, 3, 5, 8]) or 1, density=rng.choice([.1, .4, .9]))
    if rng.random() < .05:
        g["files"], g["vs"] = {}, []
    graphs.place(rng, g, w, rng.choice(g["vs"]) if g["vs"] and rng.random() < .5 else None, plocal=rng.choice([.1, .5, .9]))
    have = [w.lfiles(), dict(w.remote.files())]
    # remains and strangers, none of which may be printed
    junk = 0
    for side, top in ((0, w.local), (1, w.remote.path if w.remote.kind == "dir" else None)):
        if rng.random() < .6 and g["vs"]:
            for _ in range(rng.randint(1, 8)):
                n = rng.choice([lambda: rng.choice(C16.build_like(g["vs"], rng)), lambda: rng.choice(C16.patch_like(g["vs"], rng)) if len(g["vs"]) > 1 else "x", lambda: "dir%d.tar.zst" % rng.randrange(9), lambda: "link%d.tar.zst" % rng.randrange(9)])()
                if n in have[0] or n in have[1] or "/" in n or not n.isprintable() or (len(g["vs"]) > 1 and any(n == patch_name(a, b) for a in g["vs"] for b in g["vs"])):
                    continue
                if top is None:
                    w.srv.objects[w.remote.key(n)] = b"" if n.startswith(("dir", "link")) else b"x"
                elif n.startswith("dir"):
                    os.makedirs(os.path.join(top, n), exist_ok=True)
                elif n.startswith("link"):
                    if not os.path.lexists(os.path.join(top, n)):
                        os.symlink(rng.choice(["/nonexistent", "README", "."]), os.path.join(top, n))
                elif not os.path.lexists(os.path.join(top, n)):
                    write(os.path.join(top, n), rng.choice([b"", b"x", b"y" * 90]))
                junk += 1
    if rng.random() < .3 and g["vs"]:    # contents do not matter
        n = rng.choice(sorted(have[0]) or sorted(have[1]))
        (w.put_local if n in have[0] else w.remote.put)(n, rng.randbytes(rng.choice([1, 20, 3000])))
    w.srv and w.srv.log.clear()
    before = w.tree(), dict(w.remote.files())
    args = ["debug"] if rng.random() < .7 else rng.choice([["-v", "debug"], ["--verbose", "debug"]])
    r = w.ok(*args, env={"RUST_LOG": "error"} if rng.random() < .2 else None)
    if (w.tree(), dict(w.remote.files())) != before:
        raise Violation("debug has changed a store")
    if w.remote.fetched(r):
        raise Violation("debug has fetched %s" % w.remote.fetched(r))
    out = (r.out + r.err).decode("utf-8", "replace")
    found = [set(), set()]
    places = [w.local, w.remote.path if w.remote.kind == "dir" else None]
    strays = []
    for s in re.findall(STR, out):
        s = unrust(s)
        if not s.endswith((".tar.zst", ".patch.zst")):
            continue
        for side in (0, 1):
            if places[side] and os.path.dirname(s) == places[side]:
                found[side].add(os.path.basename(s))
                break
        else:
            if places[1] is None and not s.startswith("/"):
                found[1].add(os.path.basename(s))
            else:
                strays.append(s)
    # independent reading: a build or patch of this name that has content; a patch also needs to be between known builds
    want = [set(), set()]
    known = {n[:-8] for h in have for n in h if is_build(n)}
    pn = {patch_name(a, b) for a in known for b in known if a != b}
    extra = set()
    for side, h in ((0, w.lfiles()), (1, dict(w.remote.files()))):
        top = places[side]
        for n, b in h.items():
            if top and (os.path.islink(os.path.join(top, n)) or not os.path.isfile(os.path.join(top, n))):
                continue
            if not b:
                continue
            if n in have[side] and (is_build(n) or n in pn):
                want[side].add(n)
            elif is_build(n) or is_patch(n):
                extra.add(n)       # of another version, in case the name happens to be one
    for side, name in ((0, "local"), (1, "remote")):
        miss, more = want[side] - found[side], found[side] - want[side] - extra
        if miss or more:
            raise Violation("debug: %s store: not printed %s, wrongly printed %s; holds %s" % (name, sorted(miss), sorted(more), sorted(have[side])))
    if strays:
        raise Violation("debug prints %s" % strays)
    obs.count("artefacts_printed", len(found[0]) + len(found[1]))
    obs.count("foreign_files", junk)
    obs.key("debug", d["remote"], len(want[0]), len(want[1]), junk)


def bad(r, what, *names):
    """an ordinary failure with a message that names one of names"""
    if r.rc != 1:
        raise Violation("%s: exit status %d instead of 1: %s" % (what, r.rc, r))
    if r.out:
        raise Violation("%s: prints %r on standard output" % (what, r.out[:200]))
    t = r.err.decode("utf-8", "surrogateescape")
    if "error" not in t.lower():
        raise Violation("%s: fails without an error message: %r" % (what, t))
    if names and not any(n in t for n in names):
        raise Violation("%s: the message names none of %s: %r" % (what, list(names), t[:600]))


def fail(d, w, obs):
    rng = w.rng
    w.use(d["remote"])
    g = graphs.gen(rng, rng.randint(2, 4))
    graphs.place(rng, g, w, g["vs"][0])
    vs = g["vs"]
    un = rng.choice(["nosuchversion", "v9.9.9", "99", "unk nown", "ünknown", "il1.2.3rc", "-x-", "a---b"[:1] + "q"])
    gone = os.path.join(w.src, rng.choice(["gone.tar.zst", "no/such.tar.zst", "x y.tar.zst"]))
    plain = os.path.join(w.src, "plain.txt")
    write(plain, b"")
    okb = os.path.join(w.src, "okb.tar.zst")
    write(okb, zs.compress(b"new"))
    dd = ["--"] if un.startswith("-") else []
    missing = os.path.join(w.root, "nostore")
    ver = [un] + (["version"] if un.startswith("-") else [])
    todo = [(["install"] + dd + [un], {}, ver), (["create-patch"] + dd + [un, vs[0]], {}, ver), (["create-patch"] + dd + [vs[0], un], {}, ver),
            (["create-patch", vs[0], vs[0]], {}, [vs[0]]), (["add", gone], {}, [gone]), (["add-package", "n1", gone], {}, [gone]),
            (["add", plain], {}, [plain]),
            (["debug"], dict(local=missing), [missing]), (["sync"], dict(local=plain), [plain]), (["sync"], dict(remote=missing), [missing]), (["install", vs[0]], dict(remote="ftp://x/y"), ["ftp"]),
            (["install", "a---b"], {}, ["a---b", "version"]), (["install", "a/b"], {}, ["a/b", "version"]), (["auto-patch", "--repo-root", w.src] + dd + [un], {}, ver),
            (["add-package", "x---y", plain], {}, ["x---y", "version"])]
    if not un.startswith("-"):
        todo.append((["add", okb, "--calc-patch-from", un], {}, ver))
    for args, kw, names_ in todo:
        before = w.current(), dict(w.remote.files())
        r = w.run(*args, **kw)
        bad(r, repr(args + list(kw.items())), *names_)
        if (w.current(), dict(w.remote.files())) != before:
            raise Violation("%r fails and changes `current` or the remote" % args)
        obs.count("failures_judged")
        obs.key("fail", args[0], [un if a == un else "v" if a in vs else os.path.basename(a) for a in args[1:]], sorted(kw), d["remote"])


def fault(d, w, obs):
    rng = w.rng
    o = ops.make(w, rng, d["op"], d["remote"])
    ops.reference(w, o, obs)
    r = w.run(*o.args, shim=dict(stat=1))
    repo = os.path.join(w.src, "repo")
    evs = {c: [e for e in r.events if e.cls == c] for c in "MR"}
    for _ in range(6):
        w.restore(o.saved)
        cls = rng.choice("MMR")
        pts = [i for i, e in enumerate(evs[cls], 1) if not e.path.startswith(repo)]
        if not pts:
            continue
        i = rng.choice(pts)
        code, text = rng.choice([(5, "Input/output error"), (28, "No space left"), (13, "ermission denied")] if cls == "M" else [(5, "Input/output error"), (13, "ermission denied")])
        r = w.run(*o.args, shim=dict(fail="%d:%d" % (i, code), fclass=cls))
        f = [e for e in r.events if e.cls == "F"]
        if not f or r.rc == 0:
            obs.count("faults_survived")
            continue
        bad(r, "%s with %s(%s) failing" % (d["op"], evs[cls][i - 1].op, os.path.basename(evs[cls][i - 1].path)), text, "os error %d" % code)
        obs.count("faults_reported")
        obs.key("fault", d["op"], evs[cls][i - 1].op, code)


def denied(d, w, obs):
    """a server that refuses: the message repeats what it says"""
    import s3 as s3mod
    rng = w.rng
    w.use("s3")
    op = d["op"]
    status, code = rng.choice([(403, "AccessDenied"), (403, "SignatureDoesNotMatch"), (404, "NoSuchBucket"), (500, "InternalError"), (503, "SlowDown"), (403, "InvalidAccessKeyId"), (400, "EntityTooLarge"), (403, "RequestTimeTooSkewed")])
    for v in "12":
        w.remote.put(v + ".tar.zst", zs.compress(v.encode()))
    w.put_local("3.tar.zst", zs.compress(b"3"))
    f = os.path.join(w.src, "4.tar.zst")
    write(f, zs.compress(b"4"))
    args, kinds = dict(install=(["install", "1"], ["LIST", "GET"]), sync=(["sync"], ["LIST", "PUT"]), debug=(["debug"], ["LIST"]), create=(["create-patch", "1", "2"], ["LIST", "GET"]), upload=(["add", f, "--upload"], ["LIST", "PUT"]))[op]
    kind = rng.choice(kinds)
    before = dict(w.remote.files()), w.current()
    why = "reason %d given" % rng.randrange(10 ** 6)
    a = s3mod.s3error(status, code)
    a.body = a.body.replace(b"<Message>m<", b"<Message>%s<" % why.encode())
    w.srv.hook = lambda rec: a if rec["kind"] == kind else None
    try:
        r = w.run(*args)
    finally:
        w.srv.hook = None
    bad(r, "%s with every %s refused" % (op, kind), why)
    if (dict(w.remote.files()), w.current()) != before:
        raise Violation("%s with every %s refused has changed the remote or `current`" % (op, kind))
    obs.count("refusals_judged")
    obs.key("denied", op, kind, code)


def good(d, w, obs):
    rng = w.rng
    o = ops.make(w, rng, d["op"], d["remote"])
    r = w.ok(*o.args, env={"RUST_LOG": rng.choice([None, "info", "error", "off"])})
    if r.out:
        raise Violation("%r prints %r on standard output" % (o.args, r.out[:200]))
    t = re.sub(r"\x1b\[[0-9;]*m", "", r.err.decode("utf-8", "replace"))
    if re.search(r"^\s*(Error:|error:|thread |.* ERROR )", t, re.M):
        raise Violation("%r succeeds with an error message: %r" % (o.args, t[:500]))
    obs.count("successes_judged")
    obs.key("good", d["op"], d["remote"])


def usage(d, w, obs):
    rng = w.rng
    w.use_dir()
    g = graphs.gen(rng, 2)
    graphs.place(rng, g, w, g["vs"][0])
    v = g["vs"][0]
    cmds = ["install", "add", "add-package", "create-patch", "auto-patch", "sync", "debug"]
    c = rng.choice(cmds)
    st = ["--local", w.local, "--remote", w.remote.url]
    helps = [["--help"], ["-h"], ["help"], ["help", c], [c, "--help"], [c, "-h"], ["--version"], ["-V"], st + ["--help"], st + [c, "--help"], ["--local", "/nonexistent/x", "--remote", "nonsense", c, "--help"]]
    wrong = [[], [c], st, st + ["frobnicate"], st + ["instal", v], st + ["install"], st + ["install", v, v], st + ["install", v, "--bogus"], st + ["--bogus", "install", v], ["--remote", w.remote.url, "install", v],
             ["--local", w.local, "install", v], st + ["--local", w.local, "install", v], ["--local"], st + ["add"], st + ["add-package", v], st + ["add-package"], st + ["create-patch", v], st + ["create-patch", v, v, v],
             st + ["sync", "now"], st + ["debug", "x"], st + ["auto-patch"], st + ["add-package", "1", w.src, "--calc-patch-from"], st + ["sync", "--upload"], st + ["install", v, "--upload"],
             st + ["create-patch", v, "--from"]]
    before = w.tree(), w.current()
    for args in rng.sample(helps, 5) + rng.sample(wrong, 9):
        h = args in helps
        r = w.run(*args, opts=[])
        t = r.out if h else r.err
        if h and r.rc != 0 or not h and r.rc not in (1, 2):
            raise Violation("%r: exit status %d: %s" % (args, r.rc, r))
        if not t.strip():
            raise Violation("%r prints nothing" % (args,))
        if not h and r.out:
            raise Violation("%r: wrong usage, but prints on standard output: %r" % (args, r.out[:200]))
        if h and not (b"artefacta" in t and (args[-1] in ("--version", "-V") or b"USAGE" in t.upper())):
            raise Violation("%r prints %r" % (args, t[:200]))
        ev = [e for e in r.events if e.path.startswith((w.local + "/", w.remote.path + "/")) or (e.cls == "M" and not e.path.startswith(w.ctl))]
        if ev:
            raise Violation("%r touches the stores: %s" % (args, ev[:3]))
        obs.count("usages_judged")
        obs.key("usage", [a if a in cmds or a.startswith("-") else "x" for a in args])
    if (w.tree(), w.current()) != before:
        raise Violation("help or wrong usage has changed something")


def run(d, w, obs):
    dict(debug=debug, fail=fail, fault=fault, good=good, usage=usage, denied=denied)[d["act"]](d, w, obs)
