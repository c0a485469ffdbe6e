from .common import *
import json, socket

def raw_conn(ix):
    s = socket.create_connection((ix.ip, ix.port), 20); s.settimeout(20); return s

def enc(t):
    """What no HTTP library sends (or hyper itself refuses) is escaped; the escape is then part of the text."""
    return "".join(c if 0x20 < ord(c) < 0x7F and c not in '"<>{}#`^' else "".join("%%%02x" % b for b in c.encode()) for c in t)
def bad_text(r, good):
    k = r.randrange(18)
    if k == 14: return r.choice(['"', '"}', 'a"b', '","message":"', "\\", "a\\", "\\u00e9", '\\"', "'", "{}", "<b>", good + '"', good[:9] + "\\" + good[9:]])
    if k == 15: i = r.randrange(len(good)); return good[:i] + r.choice('"\\`\'{}<>') + good[i:]
    if k >= 16:   # one letter in the other case, often of an address that was asked for before
        i = [i for i, c in enumerate(good) if c.swapcase() != c and c.swapcase() in C.B58]
        if i: i = r.choice(i); return good[:i] + good[i].swapcase() + good[i + 1:]
        return good[1:]
    if k == 0: return ""
    if k == 1: return good[:-1]
    if k == 2: return good + r.choice(C.B58)
    if k == 3: i = r.randrange(len(good)); return good[:i] + r.choice("0OIl+_-~!@") + good[i + 1:]
    if k == 4: i = r.randrange(1, len(good)); c = r.choice([x for x in C.B58 if x != good[i]]); return good[:i] + c + good[i + 1:]
    if k == 5: return "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4"
    if k == 6: return "1" * r.choice([1, 24, 25, 33, 34, 35, 1000])
    if k == 7: return r.choice(C.B58) * r.choice([1, 2, 33, 34, 500])
    if k == 8: return "".join(r.choice(C.B58) for _ in range(r.choice([26, 33, 34, 35])))
    if k == 9: return C.b58check(bytes([r.choice([1, 4, 6, 111, 196, 128, 255])]) + r.randbytes(20))
    if k == 10: return C.b58check(bytes([r.choice([0, 5])]) + r.randbytes(r.choice([0, 19, 21, 32])))
    if k == 11: return "balance"
    if k == 12: return "%ff%00" + good[:10]
    return good.swapcase() if good.swapcase() != good else good[1:]

class Client:
    def __init__(self, e, w):
        self.e, self.w, self.r = e, w, e.r; self.addrs = w.g.query_addrs()
        self.want = {k: M.view(w.g.m.at(w.chain[-k].hash) if k else w.utxo()) for k in w.ks()}
    def control(self, what):
        """Other connections still get the right answers."""
        r = self.r; k = r.choice(list(self.want)); a = [r.choice(self.addrs) for _ in range(3)]
        d = safe(P.compare_utxos, self.w.ix.utxos(a, k), a, self.want[k])
        if d: raise V("after %s: %s" % (what, d), key="distorted")
        self.e.cov["controls"] += 1
    def expect(self, what, resp, status, check=None):
        st, h, b = resp
        if st != status: raise V("%s: status %d instead of %d, body %r" % (what, st, status, b[:200]), dict(request=what), key="status")
        if status == 400:
            try: m = json.loads(b)
            except Exception: m = None
            if not isinstance(m, dict) or not isinstance(m.get("message"), str): raise V("%s: body of the 400 is not a JSON object with a message: %r" % (what, b[:200]), key="message")
        if status in (200, 400) and "json" not in h.get("content-type", "").lower(): raise V("%s: content type %r" % (what, h.get("content-type")), key="ctype")
        if check:
            d = safe(check, P.parse(b))
            if d: raise V("%s: %s" % (what, d), key="content")
        self.e.cov["status_%d" % status] += 1
    def request(self):
        r = self.r; w = self.w; ix = w.ix; conf = w.conf
        good = r.choice(self.addrs); what = r.choice(["balance", "utxos"])
        # confirmations
        x = r.random(); k = r.choice(w.ks())
        if x < 0.35: q, okc = [], True; k = 0
        elif x < 0.65: q, okc = ["confirmations=%d" % k], True
        else: q, okc = ["confirmations=" + r.choice(["-1", "", "abc", "1.0", "1e1", "0x1", "%31", str(conf + 1), str(conf + 2), str(2**32), str(2**63), str(2**64), str(2**64 + 1), "9" * 50, "NaN", "null", "true", "%221%22", "1\\", "\\", "1=", "=1", "1=1", " 1", "1 ".strip() + "_", "1,2", "1=2", "=1", "1;", "--1", "%C3%A9"]).replace(" ", "%20")], False
        junk = r.choice([[], [], ["x=y"], ["a"], ["=b"], ["&&"], ["c=d=e"], ["address=" + r.choice(self.addrs + ["zzz"])], ["Confirmations=99"], ["confirmations "[:-1] + "s=7"]])
        kind = r.choice(["single", "single", "list", "post", "route", "override"])
        if kind in ("single", "override"):
            a = good if r.random() < 0.6 else bad_text(r, good)
            if kind == "override": junk = ["address=" + r.choice(self.addrs + ["nonsense"])]; self.e.cov["overrides"] += 1
            if any(ch in a for ch in "/?#"): return
            a = enc(a)
            qs = q + junk; r.shuffle(qs); p = "/addresses/%s/%s%s" % (a, what, "?" + "&".join(qs) if qs else "")
            ok = okc and C.addr_valid(a)
            def chk(x):
                if what == "balance":
                    v = sum(self.want[k].get(a, {}).values()); return None if P.sat(x) == v else "balance %s instead of %s satoshis" % (x, v)
                return P.compare_utxos([dict(address=a, utxos=x)], [a], self.want[k])
            self.expect("GET " + p[:300], ix.call("GET", p), 200 if ok else 400, chk if ok else None)
        elif kind == "list":
            l = [r.choice(self.addrs) for _ in range(r.choice([1, 2, 5]) if r.random() < 0.97 else r.choice([200, 1200, 1700]))]; ok = okc; present = True
            y = r.random()
            if y < 0.3: l[r.randrange(len(l))] = bad_text(r, good); l = [t.replace(",", "").replace("&", "").replace("=", "") for t in l]; l = [enc(t) for t in l]
            ok = ok and all(C.addr_valid(t) for t in l)
            al = ["addresses=" + ",".join(l)]
            if y > 0.9: al = []; ok = False
            elif y > 0.8: al = ["addresses=" + r.choice([",".join(l) + ",", "," + ",".join(l), ",,".join(l + [good]), ",", " ".join(l + [good]).replace(" ", "%20"), ";".join(l + [good]), "%22" + l[0] + "%22", "[" + ",".join(l) + "]", ", ".join(l + [good]).replace(" ", "%20")])]; ok = False
            if junk and junk[0].startswith("address="): junk = []
            qs = al + q + junk; r.shuffle(qs); p = "/addresses/%s?%s" % (what, "&".join(qs)) if qs else "/addresses/" + what
            f = P.compare_utxos if what == "utxos" else P.compare_balances
            self.expect("GET " + p[:300], ix.call("GET", p), 200 if ok else 400, (lambda x: f(x, l, self.want[k])) if ok else None)
        elif kind == "post":
            l = [r.choice(self.addrs) for _ in range(r.choice([0, 1, 3]))]; y = r.randrange(16); ok = okc
            if r.random() < 0.03: l = [r.choice(self.addrs) for _ in range(r.choice([300, 2000, 8000, 8000, 40000]))]; y = 0 if r.random() < 0.7 else y; what = r.choice(["balance", "balance", what]); self.e.cov["long_posts"] += 1
            body = json.dumps(l).encode()
            if y < 7 and r.random() < 0.3 and len(l) < 9:   # the same list in another spelling
                sp = lambda: r.choice(["", " ", "\n", "\t", "\r\n  "])
                one = lambda a: '"%s"' % "".join("\\u%04x" % ord(c) if r.random() < 0.3 else c for c in a)
                body = (sp() + "[" + ",".join(sp() + one(a) + sp() for a in l) + sp() + "]" + sp()).encode() if l else b" [ ] "; self.e.cov["spelled_bodies"] += 1
            if y >= 7: ok = False
            if y == 7: body = b""
            elif y == 8: body = r.randbytes(20)
            elif y == 9: body = json.dumps({"addresses": l}).encode()
            elif y == 10: body = json.dumps(l + [r.choice([None, 1, 1.5, True, [good], {"a": good}])]).encode()
            elif y == 11:
                t = bad_text(r, good)
                if r.random() < 0.4: i = r.randrange(len(t) + 1); t = t[:i] + r.choice(["\n", "\r\n", "\t", "\0", "\x1b", "\x7f", '"', "\\", "\u00e9", "\u2028", "\U0001f600", "/"]) + t[i:]
                l = l + [t]; r.shuffle(l); body = json.dumps(l, ensure_ascii=r.random() < 0.5).encode(); self.e.cov["texts_to_escape"] += any(c in t for c in '"\\\n\0\x1b')
                if C.addr_valid(t): ok = okc
            elif y == 12: body = body[:-1]
            elif y == 13: body = b"[" * r.choice([10, 200, 20000]); self.e.cov["deep_json"] += 1
            elif y == 14: body = b'["' + good.encode() + b'\xff"]'
            elif y == 15: body = r.choice([b"null", b"1", b'"%s"' % good.encode(), b"true", b"[]x", b'["\\ud800"]', b"{}", b"[,]", b"//[]"])
            qs = q + junk; r.shuffle(qs); p = "/addresses/%s%s" % (what, "?" + "&".join(qs) if qs else "")
            f = P.compare_utxos if what == "utxos" else P.compare_balances
            self.expect("POST %s body %r" % (p[:200], body[:120]), ix.call("POST", p, body), 200 if ok else 400, (lambda x: f(x, l, self.want[k])) if ok else None)
        else:
            p = r.choice(["/", "/addresses", "/addresses/", "/addresses/%s" % good, "/addresses/%s/" % good, "/addresses/%s/balance/" % good, "/addresses/%s/txs" % good, "//addresses/balance", "/Addresses/balance", "/addresses/balances", "/addresses/%s/x/balance" % good, "/addresses/%s/balance/utxos" % good, "/x/addresses/balance", "/addressesXbalance", "/addresses/balanceX", "/" + "a" * 5000, "/addresses/%s/BALANCE" % good, "/%00", "/addresses/*/../balance", "/favicon.ico"])
            v = "GET"
            if r.random() < 0.4: p, v = r.choice(["/addresses/balance", "/addresses/utxos", "/addresses/%s/balance" % good, "/addresses/%s/utxos" % good]), r.choice(["PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "FOO", "HEAD", "HEAD", "get", "post", "Get"])
            elif r.random() < 0.3: p, v = r.choice(["/addresses/%s/balance" % good, "/addresses/%s/utxos" % good, "/x"]), "POST"
            q2 = "?confirmations=1" if r.random() < 0.3 else ""
            if v == "HEAD": return self.head(p + q2)
            try: resp = ix.h.raw(("%s %s%s HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n" % (v, p, q2)).encode("latin1"))
            except (OSError, P.HttpError): ix.h.close(); self.control("an unknown route"); return
            self.expect("%s %s" % (v, p[:200]), resp, 404)
    def head(self, p):
        s = raw_conn(self.w.ix); b = b""
        try:
            s.sendall(b"HEAD %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n" % p.encode())
            while True:
                x = s.recv(65536)
                if not x: break
                b += x
        except ConnectionError: pass
        s.close(); self.e.cov["heads"] += 1
        if b.split(b" ")[1:2] != [b"404"]: raise V("HEAD %s: answered %r" % (p, b[:100]), key="status")
    def hostile(self, open_):
        """Bytes that are no proper exchange; what counts is what happens to everybody else."""
        r = self.r; ix = self.w.ix; k = r.randrange(12); s = raw_conn(ix); good = r.choice(self.addrs)
        names = ["garbage", "abort_in_body", "abort_in_head", "huge_header", "oversized_body", "chunked", "bad_chunked", "slow", "reset", "pipeline", "connect_close", "http09"]
        self.e.cov["hostile_" + names[k]] += 1
        try:
            if k == 0: s.sendall(r.randbytes(r.choice([1, 100, 5000])))
            elif k == 1: s.sendall(b"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n[\"%s" % good.encode())
            elif k == 2: s.sendall(b"GET /addresses/%s/bal" % good.encode())
            elif k == 3: s.sendall(b"GET / HTTP/1.1\r\nX: " + b"a" * r.choice([10000, 500000, 2000000]) + b"\r\n\r\n")
            elif k == 4:
                n = r.choice([10**5, 10**6, 4 * 10**6]); body = b"[" + b",".join([b'"' + good.encode() + b'"'] * (n // 40)) + b"]" if r.random() < 0.3 and n <= 10**6 else b" " * n
                s.sendall(b"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n" % len(body)); s.sendall(body); s.settimeout(30); s.recv(100)
            elif k == 5:
                b = json.dumps([good]).encode(); out = b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n"
                while b: n = r.randrange(1, 9); out += b"%x\r\n%s\r\n" % (len(b[:n]), b[:n]); b = b[n:]
                out += b"0\r\n\r\n"; h = P.Http(ix.ip, ix.port, 30); st, hd, body = h.raw(out); h.close()
                self.expect("chunked POST", (st, hd, body), 200, lambda x: P.compare_utxos(x, [good], self.want[0]))
            elif k == 6: s.sendall(b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + r.randbytes(30))
            elif k == 7: s.sendall(b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nContent-Length: 50\r\n\r\n["); open_.append(s); return
            elif k == 8:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0"); s.sendall(b"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n[")
            elif k == 9:
                n = r.choice([2, 5, 30]); l = [r.choice(self.addrs) for _ in range(n)]
                s.sendall(b"".join(b"GET /addresses/%s/balance HTTP/1.1\r\nHost: x\r\n\r\n" % a.encode() for a in l))
                h = P.Http(ix.ip, ix.port); h.s = s; h.buf = b""
                for a in l:
                    st, hd, b = h.raw(b"")
                    self.expect("pipelined GET", (st, hd, b), 200, lambda x: None if P.sat(x) == sum(self.want[0].get(a, {}).values()) else "answer out of order")
            elif k == 10: pass
            else: s.sendall(b"GET /addresses/%s/balance\r\n\r\n" % good.encode())
        except OSError: pass
        s.close()

def scenario(e):
    r = e.r; w = World(e, conf=r.choice([1, 2, 6]), naddr=6, extra=r.choice([1, 5]), ntx=3, interval=r.choice([1, 20])); c = Client(e, w); open_ = []
    n = r.choice([150, 300]); hist = []
    for i in range(n):
        if r.random() < 0.12: c.hostile(open_); hist.append("h"); c.control("a malformed exchange")
        else: c.request()
        if r.random() < 0.03: c.control("requests")
    if r.random() < 0.15:   # many idle connections at once
        for _ in range(200): open_.append(raw_conn(w.ix))
        c.control("200 idle connections"); e.cov["idle_connections"] += 200
    if r.random() < 0.25:   # many clients that never finish a request
        n = r.choice([70, 140, 300])
        for _ in range(n):
            s = raw_conn(w.ix); s.sendall(r.choice([b"POST /addresses/balance HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n[", b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n[", b"GET /addresses/"])); open_.append(s)
        for _ in range(3): c.control("%d unfinished requests" % n)
        w.ix.h.close(); c.control("%d unfinished requests, on a new connection" % n); e.cov["unfinished_requests"] += n
    c.control("everything"); w.add(1); w.ix.sync(); w.check("after hostile clients, a new block", balances=True)
    for s in open_: s.close()
    e.sig.append((n, len(hist), r.getrandbits(30))); e.cov["requests"] += n; e.samples.append(dict(conf=w.conf, requests=n, hostile=len(hist)))

def run():
    main("C11", scenario, required=("status_200", "heads", "texts_to_escape", "spelled_bodies", "unfinished_requests", "long_posts", "status_400", "status_404", "controls", "overrides", "deep_json", "hostile_abort_in_body", "hostile_reset", "hostile_oversized_body", "hostile_pipeline", "hostile_chunked", "hostile_slow"),
         rule="each scenario is a new random sequence of 150 to 300 requests; counted by their seed")
