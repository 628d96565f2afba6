import ops
from world import *

LEVEL = "exploration"
RULE = ("Differential and metamorphic: each case prepares stores and one command (every subcommand, several situations, some that have to fail), runs it in a plain environment, puts everything back and runs it "
        "again with stores, sources and repository named in another way (relative, with . and .. and doubled or trailing slashes, through symbolic links, by environment variable instead of option, S3 URLs with "
        "redundant parts), from another working directory, with other verbosity, logging, locale, temporary directory, umask, home, unrelated variables, closed or full standard streams. Exit status, both stores, "
        "`current`, fetches and uploads must be the same. Two more installs under yet other settings continue from there and are judged against the published contents. Distinct by command and set of settings varied.")
ASSUMPTIONS = ["the local and the remote store are two separate directories and neither lies within the other, nor does the temporary directory lie within a store", "RUST_LOG is not malformed while nothing can be written to stderr"]


def cases(tier, rng):
    n = 46 if tier == "quick" else 500
    return [dict(op=k, remote="s3" if (i + j) % 4 == 0 else "dir", i=j) for j in range(n) for i, k in enumerate(ops.ALL + ["fail"])]


# what shells, URLs and patterns give a meaning, a path does not
ODD = ["~"] * 8 + ["~root", " a", "b ", "\tc", "$HOME", "%41", "a:b", "*", "a\nb", "é", "{x}", "a=b", "a,b", "'q'", '"q"', "a\\b", "file:", "s3:", "%2e%2e", "x?y", "#z",
       "local.tar.zst", "a---b", "...", "C:", "@", "!", "e\u0301", "L" * 200]


def spell(w, rng, p, cwd, final_link=True, must_dir=True):
    """another name of the existing absolute path p, and what it is called"""
    k = rng.choice(["same", "rel", "rel", "dotrel", "slash", "double", "dot", "dotdot", "link", "parentlink", "linkrel", "linkslash", "deeplink", "oddlink"] + ["filelink"] * (not must_dir))
    w.nspell = n = getattr(w, "nspell", 0) + 1
    rel = os.path.relpath(p, cwd)
    d, b = os.path.split(p)
    if k in ("link", "linkrel", "linkslash", "deeplink", "oddlink") and not final_link:
        k = "parentlink"
    if k in ("slash", "linkslash", "oddlink") and not must_dir:
        k = "double"
    if k == "rel":
        # a leading dash would be an option
        return (rel if not rel.startswith("-") else "./" + rel), k
    if k == "dotrel":
        return "./" + rel, k
    if k == "slash":
        return p + "/", k
    if k == "double":
        return w.root + p[len(w.root):].replace("/", "//"), k
    if k == "dot":
        return d + "/./" + b + ("/." if must_dir else ""), k
    if k == "dotdot":
        return d + "/" + b + "/../" + b if must_dir else d + "/../" + os.path.basename(d) + "/" + b, k
    if k in ("link", "linkrel", "linkslash"):
        l = os.path.join(w.root, "cwd", "l%d" % n)
        os.symlink(p if k != "linkrel" else os.path.relpath(p, os.path.dirname(l)), l)
        return l + ("/" if k == "linkslash" else ""), k
    if k == "filelink":
        l = os.path.join(w.root, "cwd", "f%d" % n)
        os.mkdir(l)
        os.symlink(p if rng.random() < .5 else os.path.relpath(p, l), os.path.join(l, b))
        return rng.choice([os.path.join(l, b), os.path.relpath(os.path.join(l, b), cwd)]), k
    if k == "oddlink":
        top = os.path.join(w.root, "cwd")
        l = os.path.join(top, rng.choice(ODD))
        if os.path.lexists(l):
            top = os.path.join(top, "o%d" % n)
            os.mkdir(top)
            l = os.path.join(top, rng.choice(ODD))
        os.symlink(p, l)
        l = l if cwd != os.path.join(w.root, "cwd") or rng.random() < .2 else os.path.relpath(l, cwd)
        return l + rng.choice(["", "", "/", "/."]), k
    if k == "parentlink":
        l = os.path.join(w.root, "cwd", "p%d" % n)
        os.symlink(d, l)
        return os.path.join(l, b), k
    if k == "deeplink":
        l1, l2 = (os.path.join(w.root, "cwd", x + str(n)) for x in "xy")
        os.symlink(p, l1)
        os.symlink("./" + os.path.basename(l1), l2)
        return os.path.relpath(l2, cwd), k
    return p, k


def spell_url(rng, url):
    """other forms of the URL of an S3 store"""
    k = rng.choice(["same", "slash", "slashes", "lead", "query", "frag", "port"])
    host, _, path = url[5:].partition("/")
    if k == "port":
        return "s3://%s:443/%s" % (host, path), k
    if k == "lead":
        return "s3://%s//%s" % (host, path), k
    return url + dict(same="", slash="/", slashes="///", query="?x=y", frag="#z")[k], k


def setting(w, rng, args, paths, level):
    """-> keyword arguments for World.run with everything random, and what was varied.
    args may contain absolute paths listed in paths: path -> (is a directory, may be a link)"""
    dirs = [os.path.join(w.root, "cwd"), w.local, w.src, w.root, "/", os.path.join(w.root, "home")] + ([w.remote.path] if w.remote.kind == "dir" else [])
    cwd = rng.choice(dirs)
    env, opts, how = {}, [], []
    if w.desc["op"].startswith("auto") and rng.random() < .6 and "--repo-root" in args:
        # the repository can be found from the working directory, or from any place within
        i = args.index("--repo-root")
        sub = os.path.join(args[i + 1], "some", "place")
        os.makedirs(sub, exist_ok=True)
        if rng.random() < .6:
            cwd = rng.choice([args[i + 1], sub, os.path.join(args[i + 1], ".git")])
            args = args[:i] + args[i + 2:]
            how.append("repo from " + os.path.basename(cwd))
        else:
            args = args[:i + 1] + [rng.choice([sub, os.path.join(args[i + 1], ".git")])] + args[i + 2:]
            how.append("repo within")
    if args[0] == "auto-patch" and rng.random() < .4 and "1.2.10" in args:
        env["CI_COMMIT_REF_NAME"] = "1.2.10"
        args = [a for a in args if a != "1.2.10"]
        how.append("version by variable")
    elif rng.random() < .2:
        env["CI_COMMIT_REF_NAME"] = rng.choice(["other", "", "a---b", "1.2.8"])
    how.append("cwd " + os.path.basename(cwd))
    real_args = []
    for a in args:
        if a in paths:
            a, k = spell(w, rng, a, cwd, paths[a][1], paths[a][0])
            how.append("arg " + k)
        real_args.append(a)
    args = real_args
    # options of the subcommand in other forms and places
    if "--calc-patch-from" in args and rng.random() < .5:
        i = args.index("--calc-patch-from")
        args = args[:i] + ["--calc-patch-from=" + args[i + 1]] + args[i + 2:]
        how.append("=")
    if "--upload" in args and rng.random() < .5:
        args = [a for a in args if a != "--upload"]
        args.insert(1, "--upload")
        how.append("option first")
    l, k = spell(w, rng, w.local, cwd)
    how.append("local " + k)
    if w.remote.kind == "dir":
        r, k2 = spell(w, rng, w.remote.path, cwd)
    else:
        r, k2 = spell_url(rng, w.remote.url)
    how.append("remote " + k2)
    for o, v, var in (("--local", l, "ARTEFACTA_LOCAL_STORE"), ("--remote", r, "ARTEFACTA_REMOTE_STORE")):
        x = rng.randrange(4)
        if x == 0:
            env[var] = v
        else:
            opts += [o, v] if x != 2 else [o + "=" + v]
            if x == 3:
                env[var] = rng.choice(["/nonexistent", w.src, "http://x/", w.tmp, ""])
        how.append("%s %s" % (o, ["variable", "option", "option=", "option and variable"][x]))
    if len(opts) == 4 and rng.random() < .5:
        opts = opts[2:] + opts[:2]
    if rng.random() < .4:
        opts.insert(rng.choice([0, len(opts)]), rng.choice(["-v", "--verbose"]))
        how.append("verbose")
    for var, vals, prob in (("RUST_LOG", ["trace", "off", "=,=/[", "artefacta=trace", "error", ""], .5), ("LANG", ["tr_TR.UTF-8", "C", "POSIX", "\udcff"], .3), ("LC_ALL", ["C", "de_DE"], .2),
                            ("TZ", ["Asia/Tokyo", "nonsense", ""], .3), ("HOME", [None, "/nonexistent", ""], .3), ("PATH", [None, "", "."], .3), ("USER", ["nobody"], .2), ("XYZ", ["\udcfe\udc80"], .2),
                            ("RUST_BACKTRACE", ["1", None, "full"], .2), ("RUST_LIB_BACKTRACE", ["0"], .1), ("RUST_LOG_STYLE", ["always", "never"], .2), ("NO_COLOR", ["1"], .2), ("COLUMNS", ["1", "x"], .1),
                            ("AWS_REGION", ["eu-north-1", "garbage region"], .2), ("AWS_DEFAULT_REGION", ["us-east-1"], .2), ("AWS_PROFILE", ["other"], .2), ("GIT_DIR", ["/nonexistent"], .2),
                            ("GIT_WORK_TREE", ["/tmp"], .1), ("GIT_CEILING_DIRECTORIES", ["/"], .1), ("HTTPS_PROXY", ["http://127.0.0.1:1"], .15), ("MALLOC_PERTURB_", ["165"], .2),
                            ("ARTEFACTA_UPLOAD", ["1"], .1), ("ARTEFACTA_VERSION", ["x"], .1), ("RAYON_NUM_THREADS", ["1", "3"], .2), ("TOKIO_WORKER_THREADS", ["1"], .2),
                            ("SOURCE_DATE_EPOCH", ["0", "1", "1600000000"], .3), ("CI", ["true", "1"], .2), ("CI_COMMIT_TAG", ["1.2.8", "v9"], .2), ("CI_COMMIT_SHA", ["deadbeef"], .1), ("DEBUG", ["1"], .1), ("TERM", ["dumb", None], .1),
                            ("ZSTD_CLEVEL", ["1", "22"], .2), ("ZSTD_NBTHREADS", ["4"], .2), ("AWS_ENDPOINT_URL", ["http://127.0.0.1:1"], .2), ("XDG_CONFIG_HOME", ["/nonexistent"], .1), ("XDG_CACHE_HOME", ["/nonexistent"], .1), ("TMP", ["/nonexistent"], .1), ("TEMP", ["/nonexistent"], .1),
                            ("POSIXLY_CORRECT", ["1"], .1), ("TAR_OPTIONS", ["--verbose"], .1), ("PWD", ["/nonexistent"], .2), ("LOGNAME", ["x"], .1), ("GIT_CONFIG_GLOBAL", ["/nonexistent"], .1), ("GITHUB_REF_NAME", ["1.2.8"], .1)):
        if rng.random() < prob:
            v = rng.choice(vals)
            env[var] = v
            how.append("%s=%r" % (var, v))
    t = os.path.join(w.root, "home", rng.choice(["t1", "t mp", "té"]))
    x = rng.randrange(5)
    if x < 3:
        os.makedirs(t, exist_ok=True)
        if x == 1:
            env["TMPDIR"] = t + "/"
        elif x == 2:
            env["TMPDIR"] = os.path.relpath(t, cwd)
        else:
            env["TMPDIR"] = t
        how.append("TMPDIR %d" % x)
    fds = {}
    if rng.random() < .3:
        fds[0] = rng.choice([None, "/dev/full", "/dev/zero"])
    if rng.random() < .5:
        fds[1] = rng.choice([None, "/dev/full", "/dev/full"])
    if rng.random() < .2 and args[0] != "debug":
        fds[2] = "/dev/full"
        if env.get("RUST_LOG") == "=,=/[":      # env_logger complains about it with eprintln!, which panics then
            del env["RUST_LOG"]
    if fds:
        how.append("fds %s" % sorted(fds.items()))
    um = rng.choice([-1, 0o77, 0, 0o27, 0o277])
    how.append("umask %o" % um if um >= 0 else "umask")
    return dict(args=args, opts=opts, env=env, cwd=cwd, fds=fds, umask=um), how


def go(w, s):
    s = dict(s)
    return w.run(*s.pop("args"), **s)


def plain(w):
    """everything outside the stores that no command may change"""
    t = {k: x for k, x in tree(w.root).items() if k.split(b"/")[0] in (b"src",)}
    return {k: x[:2] + x[3:] if x[0] == "file" else x for k, x in t.items()}


def run(d, w, obs):
    rng = w.rng
    kind = d["op"]
    fail = kind == "fail"
    if fail:
        kind = rng.choice(["install_fresh", "install_chain", "create", "add_new", "pkg_new", "auto", "add_calc"])
    if d["remote"] == "s3":
        w.use_s3(rng.choice(["st/ore", "", "x", "a_b/c-d"]))
    o = ops.make(w, rng, kind, d["remote"])
    if fail:
        i = dict(install=1, create=1, add=1, pkg=1, auto=3)[kind.split("_")[0]]
        if kind == "add_calc":
            i = o.args.index("--calc-patch-from") + 1
        o.args[i] = {"add_new": o.args[i] + ".gone", "pkg_new": "a---b", "auto": "9.9.9"}.get(kind, "unknown")
    paths = {a: (os.path.isdir(a), os.path.isdir(a)) for a in o.args if a.startswith("/")}
    level = w.level
    if fail:
        saved = w.save()
        r = w.run(*o.args)
        if r.ok:
            raise Violation("a command that cannot succeed did: %s" % r)
        o.l1 = {n: b for n, b in w.lfiles().items()}
        o.r1 = dict(w.remote.files())
        o.cur1 = ops.real(w)
        w.restore(saved)
    else:
        r = ops.reference(w, o, obs)
    f0, u0 = sorted(w.remote.fetched(r)), sorted(n for n in set(w.remote.written(r)) if is_artefact(n))
    s, how = setting(w, rng, list(o.args), paths, level)
    before = plain(w)
    what = "%s (%s) with %s" % (d["op"] + (" " + kind if fail else ""), d["remote"], ascii(how))
    r = go(w, s)
    if r.ok != (not fail) or r.rc not in (0, 1, 2):
        raise Violation("%s: %s, unlike in a plain environment: %s" % (what, "failed" if not fail else "ended with %s" % r.rc, r))
    compare(w, o, what)
    if w.stray():
        raise Violation("%s left %s" % (what, w.stray()))
    if plain(w) != before:
        raise Violation("%s changed its sources: %s" % (what, diff(before, plain(w))))
    f1, u1 = sorted(w.remote.fetched(r)), sorted(n for n in set(w.remote.written(r)) if is_artefact(n))
    if f1 != f0 or u1 != u0:
        raise Violation("%s: fetched %s instead of %s, uploaded %s instead of %s" % (what, f1, f0, u1, u0))
    obs.count("differential_runs")
    obs.count("settings_varied", len(how))
    for h in how:
        if h.split()[0] in ("local", "remote", "arg", "cwd"):
            obs.key(kind, d["remote"], h)
    # on from there, under other settings
    if fail:
        return
    for _ in range(2):
        K = sorted(n[:-8] for n in set(w.lfiles()) | set(w.remote.files()) if is_build(n))
        v = rng.choice(K)
        before = w.lfiles()
        s, how2 = setting(w, rng, ["install", v], {}, level)
        r = go(w, s)
        what2 = "%s, then an install of %r with %s" % (what, v, ascii(how2))
        if not r.ok:
            raise Violation("%s failed: %s" % (what2, r))
        w.check_current(v, what=what2)
        w.check_artefacts(w.lfiles(), o.truth, what2)
        if v + ".tar.zst" in before and w.remote.fetched(r):
            raise Violation("%s fetched %s although the build was there" % (what2, w.remote.fetched(r)))
        if w.stray():
            raise Violation("%s left %s" % (what2, w.stray()))
        obs.count("followups_judged")
    obs.sample = dict(op=d["op"], remote=d["remote"], settings=[ascii(h) for h in how], then=[ascii(h) for h in how2])


def compare(w, o, what):
    for side, now, want in (("local", w.lfiles(), o.l1), ("remote", dict(w.remote.files()), o.r1)):
        if set(now) != set(want):
            raise Violation("%s: the %s store has %s more, %s less than in a plain environment" % (what, side, sorted(set(now) - set(want)), sorted(set(want) - set(now))))
        for n in now:
            if now[n] != want[n]:
                raise Violation("%s: %r in the %s store is not as in a plain environment" % (what, n, side))
    if ops.real(w) != o.cur1:
        raise Violation("%s: `current` leads to %r instead of %r" % (what, ops.real(w), o.cur1))
