"""A stand-in for api.github.com: CONNECT proxy and TLS server in one.
usage: github.py FIXTURES CERT KEY PORTFILE   (ends when its standard input is closed)"""
import base64, contextlib, json, os, ssl, subprocess, sys, threading, time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, urlsplit

FIX = {}
CTX = None


def entry(name):
    return {"additions": 1, "blob_url": "u", "changes": 1, "contents_url": "u", "deletions": 0, "filename": name, "raw_url": "u",
            "sha": "s", "status": "modified"}


class H(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def do_CONNECT(self):
        if not self.path.startswith("api.github.com:"):
            self.send_error(403)
            return
        self.send_response_only(200, "Connection established")
        self.end_headers()
        self.wfile.flush()
        try:
            c = CTX.wrap_socket(self.connection, server_side=True)
        except (ssl.SSLError, OSError):
            self.close_connection = True
            return
        self.connection = c
        self.rfile = c.makefile("rb", -1)
        self.wfile = c.makefile("wb", 0)
        self.close_connection = False

    def answer(self, code, body, headers=()):
        b = body if isinstance(body, bytes) else json.dumps(body).encode()
        self.send_response(code)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(b)))
        for k, v in headers:
            self.send_header(k, v)
        self.end_headers()
        self.wfile.write(b)

    def bearer(self):
        a = self.headers.get("Authorization", "")
        return a[7:] if a.startswith("Bearer ") else ""

    def error(self, code, msg):
        self.answer(code, {"message": msg, "documentation_url": "u"})

    def jwt_of(self, app):
        try:
            h, p, s = self.bearer().split(".")
            p = json.loads(base64.urlsafe_b64decode(p + "=="))
            return str(p["iss"]) == str(app) and p["exp"] > time.time() and len(s) > 100
        except Exception:
            return False

    def do_POST(self):
        self.rfile.read(int(self.headers.get("Content-Length") or 0))
        p = urlsplit(self.path).path.split("/")
        # /app/installations/<id>/access_tokens
        if len(p) == 5 and p[1] == "app" and p[2] == "installations" and p[4] == "access_tokens":
            f = FIX.get("t" + p[3])
            a = f and f["auth"] and f["auth"][0]
            if not a or a["k"] != "app" or not self.jwt_of(a["id"]):
                return self.error(401, "bad credentials")
            if a["how"] == "no token":
                return self.error(403, "no token")
            return self.answer(201, {"token": "inst-" + p[3], "expires_at": "2199-01-01T00:00:00Z", "permissions": {},
                                     "repository_selection": "all"})
        self.error(404, "not found")

    def do_GET(self):
        u = urlsplit(self.path)
        q = {k: v[0] for k, v in parse_qs(u.query).items()}
        p = u.path.split("/")
        f = FIX.get(p[2]) if len(p) > 3 and p[1] == "repos" and p[3] == "repo" else None
        if f is None:
            return self.error(404, "not found")
        a = f["auth"][0] if f["auth"] else None
        if f.get("delay"):
            time.sleep(f["delay"])
        if len(p) == 5 and p[4] == "installation":
            if not a or a["k"] != "app" or not self.jwt_of(a["id"]):
                return self.error(401, "bad credentials")
            if a["how"] == "not installed":
                return self.error(404, "not installed")
            user = {k: "u" for k in ("avatar_url events_url followers_url following_url gists_url gravatar_id html_url login node_id "
                                     "organizations_url received_events_url repos_url starred_url subscriptions_url type url").split()}
            user.update(id=1, site_admin=False)
            return self.answer(200, {"access_tokens_url": "u", "account": user, "app_id": a["id"], "app_slug": "s", "created_at": "c",
                                     "events": [], "html_url": "u", "id": int(p[2][1:]), "permissions": {}, "repositories_url": "u",
                                     "repository_selection": "all", "target_id": 1, "target_type": "User", "updated_at": "u"})
        want = None if not a else "inst-" + p[2][1:] if a["k"] == "app" else "good"
        if want is None or self.bearer() != want:
            return self.error(401, "bad credentials")
        if f["down"]:
            how = f["how"]
            if how == "500":
                return self.error(500, "down")
            if how == "garbage":
                return self.answer(200, b"{\"files\": [")
            if how == "close":
                self.close_connection = True
                self.connection.close()
                return
            if how == "later" and int(q.get("page", "1")) > 1:
                return self.error(500, "down")
        page = int(q.get("page", "1"))
        if len(p) == 6 and p[4] == "commits" and p[5] in f["commits"]:
            files, size = f["commits"][p[5]], min(int(q.get("per_page", "300")), 300)
        elif len(p) == 7 and p[4] == "pulls" and p[6] == "files" and p[5] in f["pulls"]:
            files, size = f["pulls"][p[5]], min(int(q.get("per_page", "30")), 100)
        else:
            return self.error(404, "not found")
        part = files[(page - 1) * size:page * size]
        hs = []
        if page * size < len(files):
            hs.append(("Link", '<https://api.github.com/repositories/1/x?page=%d>; rel="next", '
                               '<https://api.github.com/repositories/1/x?page=%d>; rel="last"' % (page + 1, -(-len(files) // size))))
        elif page > 1:
            hs.append(("Link", '<https://api.github.com/repositories/1/x?page=1>; rel="first"'))
        if p[4] == "pulls":
            return self.answer(200, [entry(n) for n in part], hs)
        gu = {"name": "n", "email": "e", "date": "d"}
        c = {"comments_url": "u", "html_url": "u", "node_id": "n", "sha": p[5], "url": "u", "parents": [], "author": None,
             "committer": None,
             "commit": {"author": gu, "committer": gu, "comment_count": 0, "message": "m", "tree": {"sha": "s", "url": "u"}, "url": "u"}}
        if part or not f.get("nofiles"):
            c["files"] = [entry(n) for n in part]
        self.answer(200, c, hs)


def main():
    global CTX
    with open(sys.argv[1]) as i:
        for l in i:
            r = json.loads(l)
            FIX[r["owner"] if "owner" in r else "t%d" % r["tr"]] = r["fix"]
    CTX = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    CTX.load_cert_chain(sys.argv[2], sys.argv[3])
    ThreadingHTTPServer.request_queue_size = 128
    s = ThreadingHTTPServer(("127.0.0.1", 0), H)
    s.daemon_threads = True
    threading.Thread(target=s.serve_forever, daemon=True).start()
    with open(sys.argv[4] + ".tmp", "w") as o:
        o.write(str(s.server_address[1]))
    os.rename(sys.argv[4] + ".tmp", sys.argv[4])
    sys.stdin.read()
    os._exit(0)


@contextlib.contextmanager
def standin(d, fixtures):
    """Runs it; gives the environment in which api.github.com is this, and the key file of an app."""
    key, crt, port = (os.path.join(d, x) for x in ("key.pem", "crt.pem", "port"))
    if os.path.exists(port):
        os.remove(port)
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", key, "-out", crt, "-days", "3650",
                    "-subj", "/CN=api.github.com", "-addext", "subjectAltName=DNS:api.github.com"], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    srv = subprocess.Popen([sys.executable, os.path.abspath(__file__), fixtures, crt, key, port], stdin=subprocess.PIPE)
    try:
        t0 = time.time()
        while not os.path.exists(port):
            if time.time() - t0 > 30 or srv.poll() is not None:
                raise OSError("the stand-in for GitHub did not start")
            time.sleep(0.02)
        url = "http://127.0.0.1:" + open(port).read()
        yield {"HTTPS_PROXY": url, "https_proxy": url, "NO_PROXY": "", "no_proxy": "", "SSL_CERT_FILE": crt}, key
    finally:
        srv.stdin.close()
        srv.wait()


if __name__ == "__main__":
    main()
