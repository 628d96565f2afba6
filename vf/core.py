"""Framework: builds the binary under test, runs cases in parallel, collects
verdicts and evidence.  A case is a JSON-able descriptor; a property module has

    RULE, LEVEL, ASSUMPTIONS      texts for the evidence
    cases(tier, rng)              -> list of descriptors
    run(desc, w, obs)             runs one case in a fresh World; raises Violation
"""
import collections, fcntl, hashlib, json, multiprocessing as mp, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TARGET = os.environ.get("VF_TARGET") or os.path.join(VERIF, "target")
LIB = os.path.join(VERIF, "lib")
SHIM = os.path.join(LIB, "shim.so")


class Violation(Exception):
    """The oracle saw the property broken.  sig identifies the exact input/site."""
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg, self.sig = msg, sig


class Inconclusive(Exception):
    """The harness could not decide (time-out, set-up failure)."""


# ---------------------------------------------------------------- building

def cargo_env(nightly=False):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
             RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu" if nightly else "stable-x86_64-unknown-linux-gnu",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1")
    return e


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for top in ("src", "erreur"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x != "target")
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def build(asan=False):
    """Builds the artefacta binary from /repo's working tree; returns its path.
    asan: False (normal), True (AddressSanitizer) or "tsan" (ThreadSanitizer, with an instrumented std)."""
    os.makedirs(LIB, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".vf-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for name in ("shim", "netshim"):
            src, so = os.path.join(VERIF, "vf", name + ".c"), os.path.join(LIB, name + ".so")
            stamp = so + ".sum"
            want = hashlib.sha256(open(src, "rb").read()).hexdigest()
            if not (os.path.exists(so) and os.path.exists(stamp) and open(stamp).read() == want):
                subprocess.run(["gcc", "-O1", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o", so, src, "-ldl", "-lpthread"], check=True)
                open(stamp, "w").write(want)
        td = os.path.join(TARGET, "tsan" if asan == "tsan" else "asan" if asan else "std")
        trip = "x86_64-unknown-linux-gnu"
        prof = os.path.join(td, trip, "debug") if asan else os.path.join(td, "debug")
        binary = os.path.join(prof, "artefacta")
        stamp = os.path.join(td, ".vf-source")
        want = source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old == want and os.path.exists(binary):
            return binary
        os.makedirs(td, exist_ok=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
        # cargo decides by time stamps; contents decide here
        fp = os.path.join(prof, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("artefacta-", "erreur-")):
                    shutil.rmtree(os.path.join(fp, d))
        env = cargo_env(asan)
        cmd = ["cargo", "build", "--offline", "--locked", "--bin", "artefacta", "--target-dir", td,
               # dependencies optimised (with their assertions), the code under test as in a debug build
               "--config", 'profile.dev.package."*".opt-level=%d' % (1 if asan else 2)]
        if asan:
            san = "thread" if asan == "tsan" else "address"
            env["RUSTFLAGS"] = "-Zsanitizer=" + san
            env["CC"] = "clang"
            env["CFLAGS"] = "-fsanitize=%s -fno-omit-frame-pointer -g1" % san
            cmd += ["--target", trip] + (["-Zbuild-std"] if asan == "tsan" else [])
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
            print("BUILD-FAILED")
            sys.exit(2)
        open(stamp, "w").write(want)
        return binary


def ensure_certs():
    """A private CA and a certificate for `localhost` (made once, by set-up)."""
    d = os.path.join(LIB, "tls")
    if os.path.exists(os.path.join(d, "ok2")):
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    def ossl(*a):
        subprocess.run(["openssl", *a], cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ossl("ecparam", "-name", "prime256v1", "-genkey", "-noout", "-out", "ca.key")
    ossl("req", "-x509", "-new", "-key", "ca.key", "-subj", "/CN=vf test CA", "-days", "20000", "-out", "ca.pem",
         "-addext", "basicConstraints=critical,CA:TRUE", "-addext", "keyUsage=keyCertSign,cRLSign")
    ossl("ecparam", "-name", "prime256v1", "-genkey", "-noout", "-out", "srv.key")
    ossl("req", "-new", "-key", "srv.key", "-subj", "/CN=localhost", "-out", "srv.csr")
    open(os.path.join(d, "ext"), "w").write("subjectAltName=DNS:localhost\nbasicConstraints=CA:FALSE\nextendedKeyUsage=serverAuth\n")
    ossl("x509", "-req", "-in", "srv.csr", "-CA", "ca.pem", "-CAkey", "ca.key", "-CAcreateserial", "-days", "20000", "-extfile", "ext", "-out", "srv.pem")
    # certificates that must not be trusted: another CA's, and one for another host
    ossl("ecparam", "-name", "prime256v1", "-genkey", "-noout", "-out", "ca2.key")
    ossl("req", "-x509", "-new", "-key", "ca2.key", "-subj", "/CN=vf test CA", "-days", "20000", "-out", "ca2.pem",
         "-addext", "basicConstraints=critical,CA:TRUE", "-addext", "keyUsage=keyCertSign,cRLSign")
    open(os.path.join(d, "ext2"), "w").write("subjectAltName=DNS:example.org\nbasicConstraints=CA:FALSE\nextendedKeyUsage=serverAuth\n")
    for name, ca, ext in (("otherca", "ca2", "ext"), ("othername", "ca", "ext2")):
        ossl("ecparam", "-name", "prime256v1", "-genkey", "-noout", "-out", name + ".key")
        ossl("req", "-new", "-key", name + ".key", "-subj", "/CN=localhost", "-out", name + ".csr")
        ossl("x509", "-req", "-in", name + ".csr", "-CA", ca + ".pem", "-CAkey", ca + ".key", "-CAcreateserial", "-days", "20000", "-extfile", ext, "-out", name + ".pem")
    ossl("req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes", "-keyout", "self.key", "-subj", "/CN=localhost", "-days", "20000", "-out", "self.pem", "-addext", "subjectAltName=DNS:localhost")
    open(os.path.join(d, "ok2"), "w").write("ok")
    return d


# ---------------------------------------------------------------- running cases

class Obs:
    """What the monitors saw; summed over all cases."""
    def __init__(self):
        self.n = collections.Counter()
        self.keys = set()
        self.sample = None
        self.known = set()     # signatures of listed findings that were met (and passed over)

    def count(self, what, k=1):
        self.n[what] += k

    def key(self, *k):
        """Marks one distinct non-trivial situation that was observed and judged."""
        self.keys.add(hashlib.sha1(repr(k).encode("utf-8", "surrogateescape")).hexdigest()[:16])


def _worker(pid, binary, extra, inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from world import World
    import importlib
    mod = importlib.import_module("props." + pid)
    while True:
        item = inq.get()
        if item is None:
            break
        idx, desc = item
        obs = Obs()
        verdict = ("ok", None, None)
        w = None
        t0 = time.time()
        try:
            w = World(binary, desc, obs, extra)
            mod.run(desc, w, obs)
        except Violation as v:
            verdict = ("violation", v.msg, v.sig)
        except Inconclusive as v:
            verdict = ("inconclusive", str(v), None)
        except Exception:
            verdict = ("error", traceback.format_exc(), None)
        finally:
            try:
                if w:
                    w.close()
            except Exception:
                pass
        outq.put((idx, verdict, dict(obs.n), obs.keys, obs.sample, obs.known, time.time() - t0))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(pid, argv):
    import importlib
    sys.path.insert(0, os.path.join(VERIF, "vf"))
    sys.stdout.reconfigure(errors="backslashreplace")
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    mod = importlib.import_module("props." + pid)
    binary = build()
    extra = {"asan": build(asan=True)} if getattr(mod, "ASAN", False) else {}
    ensure_certs()
    build_s = time.time() - t0
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        descs = [r["case"]]
    else:
        rng = random.Random("%s:%s" % (seed, pid))
        descs = mod.cases(tier, rng)
    for i, d in enumerate(descs):
        d.setdefault("seed", "%s:%s:%d" % (seed, pid, i))
    if extra and any(d.get("asan") == "tsan" for d in descs):
        extra["tsan"] = build(asan="tsan")
    budget = float(os.environ.get("VF_BUDGET", "420" if tier == "quick" else "5400"))
    if tier == "thorough" and not os.environ.get("VF_BUDGET"):
        budget = getattr(mod, "THOROUGH_BUDGET", 1500)
    inq, outq = mp.Queue(), mp.Queue()
    nw = int(os.environ.get("VF_WORKERS", "0")) or getattr(mod, "WORKERS", 8)
    nw = max(1, min(nw, len(descs)))
    ws = [mp.Process(target=_worker, args=(pid, binary, extra, inq, outq), daemon=False) for _ in range(nw)]
    for p in ws:
        p.start()
    feed = iter(enumerate(descs))
    inflight, done, stop = 0, 0, False
    n = collections.Counter()
    keys, samples, bad, known_seen, inconc, errors, slow = set(), [], [], {}, [], [], []
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    def push():
        nonlocal inflight
        try:
            inq.put(next(feed)); inflight += 1
        except StopIteration:
            pass
    for _ in range(nw * 2):
        push()
    last = time.time()
    while inflight:
        try:
            idx, (v, msg, sig), cn, ck, sample, met, secs = outq.get(timeout=30)
            last = time.time()
        except Exception:
            if not any(p.is_alive() for p in ws) or time.time() - last > 300:
                errors.append((None, "workers died or stalled"))
                break
            continue
        inflight -= 1
        done += 1
        n.update(cn)
        keys |= ck
        for k in known:
            if k["signature"] in met:
                known_seen[k["signature"]] = k
        slow.append((round(secs, 2), idx))
        if sample is not None and len(samples) < 12:
            samples.append(sample)
        if v == "violation":
            k = next((k for k in known if sig is not None and k["signature"] == sig), None)
            if k:
                known_seen[k["signature"]] = k
            else:
                bad.append((idx, msg, sig))
        elif v == "inconclusive":
            inconc.append((idx, msg))
        elif v == "error":
            errors.append((idx, msg))
        if len(bad) >= int(os.environ.get("VF_MAXBAD", "5")) or len(errors) >= 5 or time.time() - t0 > budget:
            stop = True
        if not stop:
            push()
    for _ in ws:
        inq.put(None)
    for p in ws:
        p.join(10)
        if p.is_alive():
            p.kill()
    cov = dict(evaluations=done, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples or [descs[0]],
               cases_planned=len(descs), inconclusive=len(inconc), observed=dict(sorted(n.items())),
               known_findings_seen=sorted(known_seen), build_s=round(build_s, 2))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    if "--replay" not in argv:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
            f.write("\n")
    print("%s %s seed=%d cases=%d/%d distinct=%d inconclusive=%d wall=%.1fs observed=%s" % (
        pid, tier, seed, done, len(descs), len(keys), len(inconc), time.time() - t0, dict(sorted(n.items()))))
    if os.environ.get("VF_SLOW"):
        print("slowest", sorted(slow, reverse=True)[:8])
    for k in known:
        if k["signature"] in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if bad:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for idx, msg, sig in bad[:int(os.environ.get("VF_MAXBAD", "5"))]:
            rp = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, idx))
            with open(rp, "w") as f:
                json.dump(dict(property=pid, case=descs[idx], message=msg, signature=sig), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("   " + msg.replace("\n", "\n   ")[:1200])
        return 1
    if errors:
        for idx, e in errors[:3]:
            print("HARNESS-ERROR case=%s\n%s" % (descs[idx] if idx is not None else None, e))
        return 2
    for idx, m in inconc[:3]:
        print("INCONCLUSIVE case=%s %s" % (json.dumps(descs[idx], default=str)[:300], m[:500]))
    if "--replay" not in argv and (done == 0 or not keys or len(inconc) > max(2, done // 4)):
        print("INCONCLUSIVE: too little was observed")
        return 2
    return 0
