import base64
import core, ops
import s3 as s3mod
from world import *

LEVEL = "exploration"
RULE = ("Each case runs commands (every subcommand, several situations) against the TLS S3 server with credentials, prefix, version names and contents drawn at random. A monitor recomputes the AWS signature of every "
        "recorded request from the raw bytes that arrived, compares the claimed body hash and the time stamp, checks method, host name, TLS server name, bucket and prefix, and that host names are resolved and "
        "connections opened to the configured endpoint only; it searches the secret in all output, requests and stored files. In other cases the server cannot prove to be the endpoint (certificate of another "
        "authority, of another host, self-signed, expired, not yet valid, plain text): not a single request may then arrive. With directory remotes no connection may be opened. Distinct by command, "
        "credentials and kind of server.")
ASSUMPTIONS = ["credentials come from the documented environment variables (their other sources and the session token in debug logs belong to the AWS library)", "RUST_LOG does not ask the AWS library for its own logs when the secret is searched in the output, except in a part of the cases"]
BAD = ["otherca", "othername", "self", "expired", "early", "plain", "otherca", "redirect", "nocert", "nocert_plain"]


def cases(tier, rng):
    n = 120 if tier == "quick" else 1500
    cs = [dict(mode="sign", op=k, i=j) for j in range(n) for k in ops.ALL]
    cs += [dict(mode="names", op="names", i=j) for j in range(n * 2)]
    cs += [dict(mode="bad", op=rng.choice(["install_fresh", "install_chain", "add_upload", "sync_many", "create_fetch"]), kind=k, i=j) for j in range(n // 2) for k in BAD]
    cs += [dict(mode="dir", op=k, i=j) for j in range(max(1, n // 7)) for k in ops.ALL]
    return cs


ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


def credentials(rng):
    a = "".join(rng.choices(ALPHA, k=rng.choice([1, 16, 20, 40])))
    s = "".join(rng.choices(ALPHA + "+/=", k=rng.choice([20, 40, 64])))
    t = rng.choice([None, None, "".join(rng.choices(ALPHA + "+/=", k=200))])
    env = dict(AWS_ACCESS_KEY_ID=a, AWS_SECRET_ACCESS_KEY=s)
    if t:
        env["AWS_SESSION_TOKEN"] = t
    return a, s, t, env


def judge_requests(w, reqs, a, s, t, what, obs, prefix=None):
    prefix = w.remote.prefix if prefix is None else prefix
    for q in reqs:
        m = {"LIST": "GET"}.get(q["kind"], q["kind"])
        x = "%s: %s %s" % (what, m, ascii(q["raw"]))
        if q["kind"] not in ("LIST", "GET", "HEAD", "PUT"):
            raise Violation("%s: unexpected kind of request" % x)
        err = s3mod.sigv4(q, m, a, s)
        if err:
            raise Violation("%s: %s" % (x, err))
        h = dict(q["headers"])
        if h.get("x-amz-security-token") != t:
            raise Violation("%s: session token %r instead of %r" % (x, h.get("x-amz-security-token"), t))
        if q["bucket"] != w.srv.bucket or h["host"] not in ("localhost", "localhost:443"):
            raise Violation("%s: bucket %r at %r" % (x, q["bucket"], h["host"]))
        if q["sni"] != "localhost":
            raise Violation("%s: TLS connection to %r" % (x, q["sni"]))
        if q["kind"] == "LIST":
            if q["query"].get("prefix", "") != (prefix + "/" if prefix else ""):
                raise Violation("%s: lists %r" % (x, q["query"]))
        elif not q["key"].startswith(prefix + "/" if prefix else "") or "/" in q["key"][len(prefix) + 1 if prefix else 0:]:
            raise Violation("%s: touches the key %r" % (x, q["key"]))
        if q["kind"] == "PUT" and (h.get("content-md5") is None or base64.b64decode(h["content-md5"]) != s3mod.hashlib.md5(q["body"]).digest()):
            raise Violation("%s: checksum" % x)
        wide = sorted(k for k in h if k == "x-amz-acl" or k.startswith("x-amz-grant-"))
        if wide:
            raise Violation("%s: opens the object to others with %s" % (x, {k: h[k] for k in wide}))
        obs.count("signatures_verified")


def judge_network(r, what, hosts=("localhost",)):
    """only the endpoint is contacted"""
    for e in r.events:
        if e.cls != "N":
            continue
        if e.op == "resolve" and e.path not in hosts:
            raise Violation("%s: looked up the host %r" % (what, e.path))
        if e.op == "connect" and (e.path not in ("127.0.0.1", "::1") or e.n != 443):
            raise Violation("%s: connected to %s port %d" % (what, e.path, e.n))


def search(w, r, s, what):
    s = s.encode()
    forms = [s, base64.b64encode(s).rstrip(b"=")]
    for name, data in [("its output", r.out + r.err)] + [("the request %r" % q["raw"][:60], q["raw"].encode() + repr(q["headers"]).encode() + q["body"]) for q in r.requests]:
        if any(f in data for f in forms):
            raise Violation("%s: the secret is in %s" % (what, name))
    for k, x in tree(w.root).items():
        if x[0] == "file" and any(f in x[3] for f in forms) or any(f in k for f in forms):
            raise Violation("%s: the secret is in the file %r" % (what, k))


def run(d, w, obs):
    return dict(sign=sign, names=strange, bad=bad, dir=local_only)[d["mode"]](d, w, obs)


def sign(d, w, obs):
    rng = w.rng
    w.use_s3(rng.choice(["st/ore", "st/ore", "", "p", "a-b/c_d~e.f", "x/y/z"]))
    w.srv.bucket = rng.choice(["bkt", "b-2", "bucket"])
    w.remote.url = "s3://%s.localhost/%s" % (w.srv.bucket, w.remote.prefix)
    o = ops.make(w, rng, d["op"], "s3")
    a, s, t, env = credentials(rng)
    if rng.random() < .3:      # others must not be preferred to those of the environment
        os.mkdir(os.path.join(w.root, "home/.aws"))
        write(os.path.join(w.root, "home/.aws/credentials"), b"[default]\naws_access_key_id = WRONG\naws_secret_access_key = WRONG\n")
    log = rng.choice([None, None, "debug", "trace", "artefacta=trace"])
    if log:
        env["RUST_LOG"] = log
    what = "%s with %s%s" % (d["op"], "token, " if t else "", "RUST_LOG=%s" % log)
    if rng.random() < .4:      # none of this is configuration
        for k, v in (("AWS_ENDPOINT_URL", "https://evil.localhost"), ("AWS_ENDPOINT_URL_S3", "https://evil.localhost"), ("AWS_REGION", "eu-west-1"), ("AWS_DEFAULT_REGION", "us-east-1"),
                     ("AWS_PROFILE", "other"), ("S3_ENDPOINT", "evil.localhost"), ("AWS_BUCKET", "evil"), ("REMOTE", "s3://evil.localhost/")):
            if rng.random() < .6:
                env[k] = v
        what += "misleading environment, "
    if rng.random() < .25:     # paging, and a failing answer in between
        w.srv.page = rng.choice([1, 2])
    if rng.random() < .2:
        n = [0]
        code = rng.choice([403, 500, 503, 404])
        at = rng.randint(1, 4)
        def hook(rec):
            n[0] += 1
            return s3mod.s3error(code, "X") if n[0] == at else None
        w.srv.hook = hook
        what += ", %d on request %d" % (code, at)
    opts = ["--local", w.local, "--remote", w.remote.url] + (["-v"] if rng.random() < .5 else [])
    r = w.run(*o.args, opts=opts, env=env)
    if not w.srv.hook and not r.ok:
        raise Violation("%s failed: %s" % (what, r))
    if not r.requests:
        raise Violation("%s: no request arrived: %s" % (what, r))
    judge_requests(w, r.requests, a, s, t, what, obs)
    judge_network(r, what)
    search(w, r, s, what)
    obs.key(d["op"], len(a), t is not None, log, sorted({q["kind"] for q in r.requests}), w.remote.prefix, w.srv.hook is not None)
    obs.sample = dict(op=d["op"], requests=[q["raw"] for q in r.requests][:5], signature="recomputed", token=t is not None)


CHARS = " !\"#$&'()*+,:;<=>?@[]^_`{|}~%é日\U0001f680-.%2F%41\u0301"


def strange(d, w, obs):
    """names that have to be escaped in paths, queries and signatures"""
    rng = w.rng
    w.use_s3(rng.choice(["st/ore", ""]))
    a, s, t, env = credentials(rng)
    vs = {}
    while len(vs) < 4:
        v = "v" + "".join(rng.choices(CHARS, k=rng.choice([1, 3, 10]))) + "x"
        if "---" not in v:
            vs[v] = content(rng, 200)
    for v in list(vs)[:2]:
        w.remote.put(v + ".tar.zst", zs.pack(vs[v], rng))
    f = os.path.join(w.src, list(vs)[2] + ".tar.zst")
    write(f, zs.pack(vs[list(vs)[2]], rng))
    for args in (["install", list(vs)[0]], ["create-patch", list(vs)[0], list(vs)[1]], ["add", f, "--upload", "--calc-patch-from", list(vs)[1]], ["sync"]):
        r = w.run(*args, env=env)
        what = "%s" % ascii(args)
        judge_requests(w, r.requests, a, s, t, what, obs)
        judge_network(r, what)
        if not r.ok:
            raise Violation("%s failed: %s" % (what, r))
    w.check_artefacts(w.remote.files(), vs, "remote")
    if len(w.remote.files()) < 5:
        raise Violation("not all of %s has been uploaded: %s" % (ascii(list(vs)), ascii(sorted(w.remote.files()))))
    obs.key("names", sorted(vs))


_servers = {}


def bad(d, w, obs):
    """a server that is not the endpoint"""
    rng = w.rng
    kind = d["kind"]
    w.use_s3()
    o = ops.make(w, rng, d["op"], "s3")
    a, s, t, env = credentials(rng)
    before, objs = tree(w.root), dict(w.srv.objects)
    shim, what, srv = {}, "%s with a server with a certificate of kind %r" % (d["op"], kind), w.srv
    if kind.startswith("nocert"):     # nothing is said about whom to trust
        env.update({"SSL_CERT_FILE": None, "SSL_CERT_DIR": None})
        kind = rng.choice(["self", "otherca"]) if kind == "nocert" else "plain"
    elif rng.random() < .1:
        env["SSL_CERT_DIR"] = w.src
    if kind in ("otherca", "othername", "self", "plain"):
        if kind == "plain" and "plain" not in _servers:
            x = s3mod.S3(core.ensure_certs())
            def accept(x=x):
                x.accepted += 1
                return x.srv.socket.accept()
            x.srv.get_request = accept
            _servers[kind] = x
        elif kind not in _servers:
            _servers[kind] = s3mod.S3(core.ensure_certs(), kind)
        srv = _servers[kind]
        srv.reset()
        srv.objects = dict(objs)
        shim = dict(port=srv.port)
    elif kind == "expired":
        shim = dict(time=86400 * 365 * 70)
    elif kind == "early":
        shim = dict(time=-86400 * 365 * 30)
    elif kind == "redirect":
        # the right server, which sends the client elsewhere
        to = rng.choice(["https://evil.localhost/bkt/", "http://127.0.0.1:9/bkt/", "https://bkt.evil.localhost/"])
        code = rng.choice([301, 302, 307, 308])
        w.srv.hook = lambda rec: s3mod.Answer(code, b'<?xml version="1.0"?><Error><Code>PermanentRedirect</Code><Endpoint>evil.localhost</Endpoint></Error>', {"Location": to + (rec["key"] or "")})
    r = w.run(*o.args, shim=shim, env=env)
    if kind == "redirect":
        what = "%s redirected (%d) to %s" % (d["op"], code, to)
        judge_requests(w, r.requests, a, s, t, what, obs)
    elif srv.log:
        raise Violation("%s: sent %s" % (what, srv.log[-1]["raw"]))
    if r.ok or r.rc not in (1, 2):
        raise Violation("%s: ended with %s" % (what, r.rc))
    judge_network(r, what)
    search(w, r, s, what)
    x = diff(before, tree(w.root), lambda p: p.startswith(b"src"))
    if d["op"] == "add_upload":
        x = [y for y in x if "new b'local" not in y and "'local'" not in y]
    if x:
        raise Violation("%s: changed %s" % (what, x))
    if kind != "redirect" and not (srv.accepted and any(e.cls == "N" and e.op == "connect" for e in r.events)):
        raise Inconclusive("the server was not contacted: %s" % r)
    obs.count("impostors_refused")
    obs.key("bad", kind, d["op"])
    obs.sample = dict(op=d["op"], server=kind, connections=sum(e.cls == "N" and e.op == "connect" for e in r.events), requests=len(srv.log))


def local_only(d, w, obs):
    rng = w.rng
    o = ops.make(w, rng, d["op"], "dir")
    r = w.ok(*o.args, env=credentials(rng)[3])
    for e in r.events:
        if e.cls == "N":
            raise Violation("%s between two directories: %s %s" % (d["op"], e.op, e.path))
    obs.count("local_commands_without_network")
    obs.key("dir", d["op"])
