"""Helpers of a demonstration: scratch stores, the real binary, an S3 stand-in."""
import os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import zs, bpatch
BIN = os.path.join(os.getcwd(), "target/debug/artefacta")
root = tempfile.mkdtemp(prefix="demo-")
local, remote, src, tmp, home = [os.path.join(root, x) for x in ("local", "remote", "src", "tmp", "home")]
for d in (local, remote, src, tmp, home):
    os.mkdir(d)
srv = None
_so = None


def shim():
    global _so
    if not _so:
        _so = os.path.join(root, "shim.so")
        subprocess.run(["gcc", "-O1", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o", _so, os.path.join(H, "shim.c"), "-ldl", "-lpthread"], check=True)
    return _so


def s3():
    global srv
    import s3 as m
    d = os.path.join(root, "tls")
    os.mkdir(d)
    def ossl(*a):
        subprocess.run(["openssl", *a], cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ossl("ecparam", "-name", "prime256v1", "-genkey", "-noout", "-out", "ca.key")
    ossl("req", "-x509", "-new", "-key", "ca.key", "-subj", "/CN=demo CA", "-days", "20000", "-out", "ca.pem", "-addext", "basicConstraints=critical,CA:TRUE", "-addext", "keyUsage=keyCertSign,cRLSign")
    ossl("ecparam", "-name", "prime256v1", "-genkey", "-noout", "-out", "srv.key")
    ossl("req", "-new", "-key", "srv.key", "-subj", "/CN=localhost", "-out", "srv.csr")
    open(os.path.join(d, "ext"), "w").write("subjectAltName=DNS:localhost\nbasicConstraints=CA:FALSE\nextendedKeyUsage=serverAuth\n")
    ossl("x509", "-req", "-in", "srv.csr", "-CA", "ca.pem", "-CAkey", "ca.key", "-CAcreateserial", "-days", "20000", "-extfile", "ext", "-out", "srv.pem")
    srv = m.S3(d)
    return srv


def start(*args, env=None, remote_url=None, cwd=None, opts=None, stdout=None):
    e = dict(PATH="/usr/bin:/bin", HOME=home, TMPDIR=tmp, RUST_BACKTRACE="0")
    if srv:
        e.update(LD_PRELOAD=shim(), VF_PORT=str(srv.port), SSL_CERT_FILE=srv.ca, AWS_ACCESS_KEY_ID="k", AWS_SECRET_ACCESS_KEY="s")
    if env and any(k.startswith("VF_") for k in env):
        e.update(LD_PRELOAD=shim(), VF_ROOTS=root)
    e.update(env or {})
    e = {k: v for k, v in e.items() if v is not None}
    o = ["--local", local, "--remote", remote_url or ("s3://bkt.localhost/st/ore" if srv else remote)] if opts is None else opts
    return subprocess.Popen([BIN, *o, *args], env=e, cwd=cwd or src, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def run(*args, timeout=100, **kw):
    p = start(*args, **kw)
    out = p.communicate(timeout=timeout)[0]
    run.out = out
    return p.returncode


def put(where, name, content):
    write(os.path.join(where, name), zs.compress(content))


def write(p, b):
    with open(p, "wb") as f:
        f.write(b)


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def content(where, name):
    b = read(os.path.join(where, name))
    if b is None:
        return None
    try:
        return zs.decompress(b)
    except zs.ZstdError:
        return "damaged"


def patch(where, a, b, old, new, name=None):
    n = name or ("%s---%s.patch.zst" if "-" in a + b else "%s-%s.patch.zst") % (a, b)
    put(where, n, bpatch.encode(old, new))
    return n


def current():
    p = os.path.join(local, "current")
    return os.path.basename(os.path.realpath(p)) if os.path.islink(p) else None


def done(ok, what):
    shutil.rmtree(root)
    print("as promised" if ok else "BROKEN: " + what)
    sys.stdout.flush()
    os._exit(0 if ok else 1)
