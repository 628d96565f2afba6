"""A small S3 server (TLS, path style) that records every request and can
misbehave on demand."""
import base64, hashlib, http.server, os, socket, ssl, threading, time, urllib.parse
from xml.sax.saxutils import escape


class Answer:
    """A forged answer: status, body, headers; cut = close after so many body bytes."""
    def __init__(self, status=200, body=b"", headers=None, cut=None, length=None, drop=False, after=None):
        self.status, self.body, self.headers, self.cut, self.length, self.drop = status, body, headers or {}, cut, length, drop
        self.after = after     # called once the (possibly cut) body has been sent


def s3error(status, code):
    return Answer(status, ('<?xml version="1.0" encoding="UTF-8"?>\n<Error><Code>%s</Code><Message>m</Message></Error>' % code).encode(),
                  {"Content-Type": "application/xml"})


def token(after, blank):
    """with all the characters that need care in a query"""
    t = (b"\xff" if blank else b"\xfb") + after.encode("utf-8", "surrogateescape")
    while len(t) % 3 == 0:
        t += b"\xfe"
    return base64.b64encode(t).decode()


def etag(b):
    return '"%s"' % hashlib.md5(b).hexdigest()


class H(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    timeout = 60

    def log_message(self, *a):
        pass

    def send(self, a):
        if a.drop:
            self.close_connection = True
            self.connection.close()
            return
        self.send_response(a.status)
        for k, v in a.headers.items():
            if v is not None:
                self.send_header(k, v)
        if "Content-Length" not in a.headers:
            self.send_header("Content-Length", str(len(a.body) if a.length is None else a.length))
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(a.body if a.cut is None else a.body[:a.cut])
        self.wfile.flush()
        if a.after:
            a.after()
        if a.cut is not None or (a.length is not None and a.length != len(a.body)):
            self.close_connection = True

    def handle_any(self):
        s = self.server.state
        u = urllib.parse.urlsplit(self.path)
        parts = u.path.lstrip("/").split("/", 1)
        bucket = parts[0]
        key = urllib.parse.unquote(parts[1], errors="surrogateescape") if len(parts) > 1 else None
        q = dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
        n = self.headers.get("Content-Length")
        body = self.rfile.read(int(n)) if n else b""
        if n and len(body) < int(n):     # the client went away: S3 stores nothing
            with s.mu:
                s.aborted += 1
            self.close_connection = True
            return
        kind = "LIST" if self.command == "GET" and not key else self.command
        rec = dict(kind=kind, bucket=bucket, key=key, query=q, body=body, md5=self.headers.get("Content-MD5"), t=time.monotonic(),
                   raw=self.path, headers=[(a.lower(), b) for a, b in self.headers.items()], wall=time.time(), sni=getattr(self.connection, "vf_sni", None))
        with s.mu:
            s.log.append(rec)
            nth = sum(1 for r in s.log if r["kind"] == kind)
            rec["nth"] = nth
        if s.delay:
            time.sleep(s.delay(rec))
        a = s.hook(rec) if s.hook else None
        if a is None:
            a = s.serve(rec)
        rec["status"] = a.status
        self.send(a)

    do_GET = do_PUT = do_HEAD = do_DELETE = do_POST = handle_any


class S3:
    def __init__(self, certs, cert="srv"):
        self.mu = threading.Lock()
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(os.path.join(certs, cert + ".pem"), os.path.join(certs, cert + ".key"))
        def sni(sock, name, _):
            sock.vf_sni = name
        ctx.sni_callback = sni
        self.ca = os.path.join(certs, "ca.pem")

        class Srv(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128
            def handle_error(self, *a):
                pass
            def get_request(self):
                c, addr = self.socket.accept()
                self.state.accepted += 1
                c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                return ctx.wrap_socket(c, server_side=True, do_handshake_on_connect=False), addr
        self.srv = Srv(("127.0.0.1", 0), H)
        self.srv.state = self
        self.accepted = 0
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, kwargs=dict(poll_interval=0.05), daemon=True).start()
        self.reset()

    def reset(self):
        self.bucket = "bkt"
        self.objects = {}      # key -> bytes
        self.etags = {}        # key -> forged etag
        self.sizes = {}        # key -> size that listings state instead of the real one
        self.log = []
        self.hook = None
        self.delay = None
        self.page, self.blank_pages = 1000, False
        self.foreign = []
        self.aborted = 0
        self.accepted = 0      # connections

    def serve(self, r):
        k, q = r["kind"], r["query"]
        if r["bucket"] != self.bucket:
            return s3error(404, "NoSuchBucket")
        if k == "LIST":
            return self.listing(q)
        with self.mu:
            if k == "PUT":
                d = hashlib.md5(r["body"]).digest()
                if r["md5"] is not None and base64.b64decode(r["md5"]) != d:
                    return s3error(400, "BadDigest")
                self.objects[r["key"]] = r["body"]
                return Answer(200, b"", {"ETag": etag(r["body"])})
            if k in ("GET", "HEAD"):
                if r["key"] not in self.objects:
                    return s3error(404, "NoSuchKey")
                b = self.objects[r["key"]]
                return Answer(200, b, {"ETag": self.etags.get(r["key"], etag(b)), "Content-Type": "application/octet-stream",
                                       "Last-Modified": "Wed, 12 Oct 2022 17:50:00 GMT"})
            if k == "DELETE":
                self.objects.pop(r["key"], None)
                return Answer(204)
        return s3error(501, "NotImplemented")

    def listing(self, q):
        pre = q.get("prefix", "")
        delim = q.get("delimiter") or None
        after, blank = q.get("start-after") or "", False
        if q.get("continuation-token"):       # opaque to the client
            try:
                t = base64.b64decode(q["continuation-token"].encode(), validate=True)
                assert t[:1] in (b"\xfb", b"\xff")
            except (ValueError, AssertionError):
                return s3error(400, "InvalidArgument")
            after, blank = t[1:].rstrip(b"\xfe").decode("utf-8", "surrogateescape"), t[:1] == b"\xff"
        lim = min(int(q.get("max-keys") or 1000), self.page)
        with self.mu:
            keys = sorted((k for k in self.objects if k.startswith(pre)), key=lambda k: k.encode("utf-8", "surrogateescape"))
        items, seen = [], set()
        for k in keys:
            if delim and delim in k[len(pre):]:
                cp = k[:len(pre) + k[len(pre):].index(delim) + len(delim)]
                if cp in seen:
                    continue
                seen.add(cp)
                items.append((cp, None))
            else:
                items.append((k, self.objects[k]))
        if after:
            items = [i for i in items if i[0].encode("utf-8", "surrogateescape") > after.encode("utf-8", "surrogateescape")]
        more = len(items) > lim
        # a page may be empty and yet not the last one
        empty = more and self.blank_pages and not blank and bool(q.get("continuation-token"))
        items = [] if empty else items[:lim]
        x = ['<?xml version="1.0" encoding="UTF-8"?>\n<ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/">',
             "<Name>%s</Name><Prefix>%s</Prefix><MaxKeys>%d</MaxKeys><KeyCount>%d</KeyCount>" % (self.bucket, escape(pre), lim, len(items))]
        x.append("<IsTruncated>%s</IsTruncated>" % ("true" if more else "false"))
        if more:
            x.append("<NextContinuationToken>%s</NextContinuationToken>" % token(after if empty else items[-1][0], empty))
        for k, b in items:
            if b is not None:
                x.append("<Contents><Key>%s</Key><LastModified>2022-10-12T17:50:00.000Z</LastModified><ETag>%s</ETag><Size>%d</Size>"
                         "<StorageClass>STANDARD</StorageClass></Contents>" % (escape(k), escape(etag(b)), self.sizes.get(k, len(b))))
        for k, b in items:
            if b is None:
                x.append("<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>" % escape(k))
        x.append("</ListBucketResult>")
        return Answer(200, "".join(x).encode("utf-8", "surrogateescape"), {"Content-Type": "application/xml"})


# ---------------------------------------------------------------- signatures

def enc(b, slash=False):
    return urllib.parse.quote(b, safe="/-._~" if slash else "-._~")


def sigv4(rec, method, access, secret):
    """Recomputes the AWS signature (version 4) of a recorded request.
    Returns a text that says what is wrong, or None."""
    import hmac, datetime
    h = {}
    for k, v in rec["headers"]:
        if k in h:
            return "header %r comes twice" % k
        h[k] = v
    a = h.get("authorization", "")
    if not a.startswith("AWS4-HMAC-SHA256 "):
        return "no AWS4-HMAC-SHA256 signature but %r" % a[:80]
    f = dict(x.strip().split("=", 1) for x in a[17:].split(","))
    cred = f["Credential"].split("/")
    if cred[0] != access:
        return "credential %r instead of %r" % (cred[0], access)
    if len(cred) != 5 or cred[3:] != ["s3", "aws4_request"]:
        return "scope %r" % cred
    date = h.get("x-amz-date", "")
    try:
        when = datetime.datetime.strptime(date, "%Y%m%dT%H%M%SZ").replace(tzinfo=datetime.timezone.utc).timestamp()
    except ValueError:
        return "date %r" % date
    if abs(when - rec["wall"]) > 300:
        return "date %r is not now" % date
    if cred[1] != date[:8]:
        return "scope of %r at %r" % (cred[1], date)
    signed = f["SignedHeaders"].split(";")
    for need in ["host"] + [k for k in h if k.startswith("x-amz-") or k == "content-md5"]:
        if need not in signed:
            return "header %r is not signed" % need
    digest = hashlib.sha256(rec["body"]).hexdigest()
    if method == "PUT" and h.get("x-amz-content-sha256") == "UNSIGNED-PAYLOAD":
        # Allowed over TLS, as the signed Content-MD5 covers the body.
        md5 = base64.b64encode(hashlib.md5(rec["body"]).digest()).decode()
        if h.get("content-md5") != md5:
            return "neither a content hash nor the Content-MD5 %r: %r" % (md5, h.get("content-md5"))
        digest = "UNSIGNED-PAYLOAD"
    elif h.get("x-amz-content-sha256") != digest:
        return "content hash %r of a body with %r" % (h.get("x-amz-content-sha256"), digest)
    path, _, query = rec["raw"].partition("?")
    q = sorted((enc(urllib.parse.unquote_to_bytes(k)), enc(urllib.parse.unquote_to_bytes(v))) for k, _, v in (x.partition("=") for x in query.split("&") if x))
    canon = "\n".join([method, enc(urllib.parse.unquote_to_bytes(path), True), "&".join("%s=%s" % x for x in q)] +
                      ["%s:%s" % (k, " ".join(h[k].split())) for k in signed] + ["", ";".join(signed), digest])
    scope = "/".join(cred[1:])
    text = "\n".join(["AWS4-HMAC-SHA256", date, scope, hashlib.sha256(canon.encode()).hexdigest()])
    k = ("AWS4" + secret).encode()
    for x in cred[1:]:
        k = hmac.new(k, x.encode(), hashlib.sha256).digest()
    want = hmac.new(k, text.encode(), hashlib.sha256).hexdigest()
    if want != f["Signature"]:
        return "wrong signature"
    return None
