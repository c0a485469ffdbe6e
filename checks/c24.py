from .common import *
import json, select, socket
from collections import Counter

HEADERS = ["Content-Type: application/json", "Content-Type: text/plain", "Content-Type: application/x-www-form-urlencoded", "Content-Type: application/json; charset=utf-8", "Accept: */*", "Accept: text/html", "Accept-Encoding: gzip, br", "User-Agent: " + "u" * 300, "User-Agent:",
           "Cookie: " + "c=1; " * 100, "Origin: http://elsewhere", "Authorization: Basic Og==", "If-None-Match: *", "If-Modified-Since: Fri, 20 Nov 2026 00:00:00 GMT", "Cache-Control: no-cache", "X-Forwarded-For: 1.2.3.4", "X-HTTP-Method-Override: DELETE", "TE: trailers", "DNT: 1", "Upgrade-Insecure-Requests: 1", "X-Empty:", "X-Long: " + "l" * 6000]

class Req:
    """One valid or invalid request, its bytes in parts, and a judge for the reply."""
    def __init__(self, r, addrs, want, conf, big=False):
        self.r = r; k = r.choice([None, 0, 1, conf, r.randrange(conf + 1)]); kk = k or 0; view = want[kk]; q = [] if k is None else ["confirmations=%d" % k]
        n = r.choice([1, 2, 3, 8]); l = [r.choice(addrs) for _ in range(n)]; what = r.choice(["balance", "utxos"]); self.body = b""; self.verb = "GET"; self.status = 200
        kind = r.choice(["single", "single", "list", "post", "post", "bad_address", "bad_conf", "bad_body", "unknown"])
        if big: kind = "post"; what = "balance"; l = [r.choice(addrs) for _ in range(30000)]
        if kind in ("single", "bad_address"):
            a = l[0]
            if kind == "bad_address": a = a[:-1] + ("2" if a[-1] != "2" else "3"); self.status = 400
            self.path = "/addresses/%s/%s" % (a, what)
            self.judge = (lambda x: None if P.sat(x) == sum(view.get(a, {}).values()) else "balance of %s is %s" % (a, x)) if what == "balance" else (lambda x: P.compare_utxos([dict(address=a, utxos=x)], [a], view))
        else:
            f = P.compare_utxos if what == "utxos" else P.compare_balances
            self.path = "/addresses/" + what; self.judge = lambda x: f(x, l, view)
            if kind == "post": self.verb = "POST"; self.body = json.dumps(l).encode()
            elif kind == "bad_body": self.verb = "POST"; self.body = r.choice([b"", b"{}", json.dumps(l).encode()[:-1], b"[1]"]); self.status = 400
            elif kind == "unknown": self.path = r.choice(["/", "/address/" + l[0], "/addresses/" + l[0]]); self.status = 404
            else: q.append("addresses=" + ",".join(l))
            if kind == "bad_conf": q = [x for x in q if not x.startswith("conf")] + ["confirmations=%d" % (conf + 1)]; self.status = 400
        r.shuffle(q); self.target = self.path + ("?" + "&".join(q) if q else ""); self.kind = kind; self.extra_body = False
    def head(self, version="1.1", extra=(), chunked=False, absolute=False):
        r = self.r; h = ["Host: x"] + list(extra) + (r.sample(HEADERS, r.choice([1, 2, 5])) if r.random() < 0.4 else [])
        if chunked: h.append("Transfer-Encoding: chunked")
        elif self.verb == "POST" or self.body: h.append("Content-Length: %d" % len(self.body))
        r.shuffle(h)
        if r.random() < 0.3: h = [x.partition(":")[0].upper() + ":" + x.partition(":")[2] for x in h]
        return ("%s %s%s HTTP/%s\r\n" % (self.verb, "http://x" if absolute else "", self.target, version) + "".join(x + "\r\n" for x in h) + "\r\n").encode("latin1")
    def payload(self, chunked):
        if not chunked: return self.body
        out = b""; b = self.body; r = self.r; m = max(8, len(b) // 5)
        form = r.choice([b"%x", b"%x", b"%X", b"%06x", b"%x;a", b'%x;name="va;lue"', b"%x ;q=1"])
        while b: n = r.randrange(1, m); out += (form + b"\r\n%s\r\n") % (len(b[:n]), b[:n]); b = b[n:]
        return out + r.choice([b"0\r\n\r\n", b"0\r\n\r\n", b"000\r\n\r\n", b"0;x=y\r\n\r\n", b"0\r\nX-Digest: 1\r\n\r\n", b"0\r\nContent-Length: 7\r\nX: y\r\n\r\n"])
    def check(self, resp, what):
        st, h, b = resp
        if st != self.status: raise V("%s: %s %s answered %d instead of %d: %r" % (what, self.verb, self.target[:150], st, self.status, b[:150]), dict(body=repr(self.body[:200])), key="status:" + self.kind)
        if st == 200:
            d = safe(self.judge, P.parse(b))
            if d: raise V("%s: %s %s: %s" % (what, self.verb, self.target[:150], d), dict(body=repr(self.body[:200])), key="content:" + self.kind)
        elif st == 400:
            m = safe(json.loads, b)
            if not isinstance(m, dict) or not isinstance(m.get("message"), str): raise V("%s: body of a 400 is %r" % (what, b[:150]), key="message")

class Quick(P.Http):
    def _more(self):
        try: self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)      # else Nagle and delayed acknowledgements cost 40 ms per pipelined reply
        except OSError: pass
        P.Http._more(self)

def reader(h): return h.raw(b"")

class Clients:
    def __init__(self, e, w):
        self.e, self.w, self.ix = e, w, w.ix; self.addrs = w.g.query_addrs(); self.err = []; self.n = Counter(); self.lock = threading.Lock(); self.refresh()
    def refresh(self): self.want = {k: M.view(self.w.g.m.at(self.w.chain[-k].hash) if k else self.w.pool()) for k in self.w.ks()}
    def req(self, r, **kw): return Req(r, self.addrs, self.want, self.w.conf, **kw)
    def http(self, timeout=40): h = Quick(self.ix.ip, self.ix.port, timeout); h.connect(); return h
    def count(self, k, n=1):
        with self.lock: self.n[k] += n

    # each of these is one client behaviour, run by several threads at once
    def keepalive(self, r):
        h = self.http()
        for _ in range(r.choice([5, 30])):
            q = self.req(r); c = r.random() < 0.3 and q.verb == "POST"; h.s is None and h.connect()
            q.check(h.raw(q.head(chunked=c) + q.payload(c)), "keep-alive"); self.count("keepalive")
        h.close()
    def pipeline(self, r):
        h = self.http(); l = [self.req(r) for _ in range(r.choice([2, 6, 20]))]; out = b""
        for q in l: c = r.random() < 0.3 and q.verb == "POST"; out += q.head(chunked=c) + q.payload(c)
        cut = sorted(r.randrange(len(out)) for _ in range(r.choice([0, 2, 6]))) + [len(out)]; p = 0
        for x in cut:
            h.s.sendall(out[p:x]); p = x
            if r.random() < 0.5: time.sleep(0.001)
        for i, q in enumerate(l): q.check(reader(h), "pipelined request %d of %d" % (i + 1, len(l))); self.count("pipelined")
        h.close()
    def interleaved(self, r):
        """Several connections whose requests arrive in alternating pieces."""
        m = r.choice([2, 3, 6]); hs = [self.http() for _ in range(m)]; qs = [self.req(r) for _ in range(m)]; bufs = []
        for q in qs: c = r.random() < 0.3 and q.verb == "POST"; bufs.append(q.head(chunked=c) + q.payload(c))
        while any(bufs):
            i = r.choice([j for j in range(m) if bufs[j]]); n = r.choice([1, 7, 40, len(bufs[i])]); hs[i].s.sendall(bufs[i][:n]); bufs[i] = bufs[i][n:]
            if r.random() < 0.2: time.sleep(0.0005)
        for i in r.sample(range(m), m): qs[i].check(reader(hs[i]), "interleaved with %d others" % (m - 1)); hs[i].close(); self.count("interleaved")
    def old(self, r):
        for ka in (False, True):
            q = self.req(r); h = self.http(); h.s.sendall(q.head("1.0", ["Connection: keep-alive"] if ka else []) + q.body); q.check(reader(h), "HTTP/1.0"); self.count("http10")
            if not ka and h.s is not None:
                h.s.settimeout(20)
                if h.buf or h.s.recv(1): raise V("bytes after the reply to an HTTP/1.0 request", key="after")
            h.close()
    def closing(self, r):
        q = self.req(r); h = self.http(); q.check(h.raw(q.head(extra=["Connection: close"]) + q.body), "Connection: close"); self.count("closing"); h.close()
    def half_closing(self, r):
        """Requests, then the client's side is closed at once: nothing more is to come, but the replies are awaited."""
        h = self.http(); l = [self.req(r) for _ in range(r.choice([1, 1, 1, 3]))]
        if r.random() < 0.2: l[-1] = self.req(r, big=True)
        h.s.sendall(b"".join(q.head() + q.body for q in l)); h.s.shutdown(socket.SHUT_WR)
        for i, q in enumerate(l): q.check(reader(h), "request %d of %d after which the client closed its side" % (i + 1, len(l))); self.count("half_closed")
        h.close()
    def expect(self, r):
        q = self.req(r)
        while q.verb != "POST" or not q.body: q = self.req(r)
        wait = r.random() < 0.7; h = self.http(); h.s.sendall(q.head(extra=["Expect: 100-continue"]) + (b"" if wait else q.body)); h.s.settimeout(20)
        st = reader(h)
        if st[0] == 100:
            if wait: h.s.sendall(q.body)
            st = reader(h); self.count("continued")
        q.check(st, "Expect: 100-continue"); h.close()
    def absolute(self, r):
        q = self.req(r); h = self.http(); q.check(h.raw(q.head(absolute=True) + q.body), "absolute target"); self.count("absolute"); h.close()
    def get_body(self, r):
        """A body on a GET belongs to that GET and to nothing after it."""
        h = self.http()
        for _ in range(3):
            q = self.req(r)
            if q.verb == "GET": q.body = r.choice([b"[]", b'["x"]', b"GET / HTTP/1.1\r\n\r\n", json.dumps(self.addrs[:3]).encode()]); self.count("get_with_body")
            h.s is None and h.connect()
            q.check(h.raw(q.head() + q.body), "a GET that carries a body")
        h.close()
        if r.random() < 0.3: self.get_big_body(r)
    def get_big_body(self, r):
        """However long it is, and whether or not it is read before the reply; the next requests follow at once."""
        h = self.http(); l = []; out = b""
        for i in range(r.choice([2, 3])):
            q = self.req(r)
            if q.verb == "GET" and (not i or r.random() < 0.5): q.body = bytes([r.randrange(256)]) * r.choice([70000, 300000, 1500000]); self.count("get_with_big_body")
            c = r.random() < 0.3 and bool(q.body); l.append(q); out += q.head(chunked=c) + q.payload(c)
        t = threading.Thread(target=lambda: self.quiet(h.s, out), daemon=True); t.start()
        for i, q in enumerate(l): q.check(reader(h), "request %d of %d, a GET with a long body among them" % (i + 1, len(l)))
        t.join(40); h.close()
    def quiet(self, s, b):
        try: s.sendall(b)
        except OSError: pass
    def aborted(self, r):
        """A request cut off in its body, then others: nothing of it may show up anywhere."""
        for _ in range(3):
            q = self.req(r)
            while q.verb != "POST" or len(q.body) < 3: q = self.req(r)
            h = self.http(); h.s.sendall(q.head() + q.body[:r.randrange(1, len(q.body))])
            if r.random() < 0.5: h.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
            h.close(); self.count("aborted"); q = self.req(r); h = self.http(); q.check(h.raw(q.head() + q.body), "after an aborted request"); h.close()
    def slow_reader(self, r):
        """A reply of megabytes that is read late; the other clients go on."""
        q = self.req(r, big=True); h = self.http(); h.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536); h.s.sendall(q.head() + q.body); time.sleep(0.2)
        q2 = self.req(r); h2 = self.http(); q2.check(h2.raw(q2.head() + q2.body), "while another client does not read its reply"); h2.close()
        h.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20); q.check(reader(h), "a long reply read late"); h.close(); self.count("slow_reader")
    def unhurried(self, r, secs):
        """Requests whose pieces are seconds apart and which take a minute to arrive: in the head, in the body, in a chunk, with or without a request before."""
        def go(kind):
            try:
                h = self.http(90)
                if r.random() < 0.5: q = self.req(r); q.check(h.raw(q.head() + q.body), "before one that takes long"); 
                q = self.req(r)
                while kind != "head" and (q.verb != "POST" or len(q.body) < 40): q = self.req(r)
                c = kind == "chunks"; hd = q.head(chunked=c); b = q.payload(c); h.s is None and h.connect()
                if kind == "head": pieces = [hd[:5], hd[5:20], hd[20:-3], hd[-3:-1], hd[-1:] + b]
                elif kind == "pause": pieces = [hd[:len(hd) // 2], hd[len(hd) // 2:] + b]
                else: m = len(b); pieces = [hd, b[:3], b[3:m // 2], b[m // 2:-4], b[-4:]]
                for i, x in enumerate(pieces):
                    if i: time.sleep(secs / (len(pieces) - 1))
                    h.s.sendall(x)
                q.check(reader(h), "a request that took %d s to arrive (%s)" % (secs, kind)); h.close(); self.count("unhurried_" + kind)
            except V as x: self.err.append(x)
            except (TimeoutError, socket.timeout): self.err.append(P.Stuck("a request that took %d s to arrive (%s): no reply within 90 s" % (secs, kind), self.ix))
            except (OSError, P.HttpError) as x: time.sleep(0.1); self.err.append(V("a request that took %d s to arrive (%s) failed: %r (process alive: %s) %s" % (secs, kind, x, self.ix.alive(), self.ix.stderr()[-400:]), key="failed:unhurried"))
            except Exception as x: self.err.append(x)
        ts = [threading.Thread(target=go, args=(k,), daemon=True) for k in ("head", "head", "body", "body", "chunks", "pause")]
        for t in ts: t.start()
        return ts
    KINDS = ("keepalive", "keepalive", "keepalive", "pipeline", "pipeline", "interleaved", "interleaved", "old", "closing", "half_closing", "expect", "absolute", "get_body", "aborted")

    def round(self, threads, per, late=0):
        def go(seed, slow):
            r = random.Random(seed)
            for _ in range(per):
                if self.err: return
                k = r.choice(self.KINDS) if not slow or _ else "slow_reader"
                try: getattr(self, k)(r)
                except V as x: self.err.append(x)
                except (TimeoutError, socket.timeout) as x: self.err.append(P.Stuck("%s: no reply within 40 s" % k, self.ix))
                except (OSError, P.HttpError) as x:
                    if k == "aborted" and isinstance(x, ConnectionError): continue
                    time.sleep(0.1); self.err.append(V("%s: a valid exchange failed: %r (process alive: %s) %s" % (k, x, self.ix.alive(), self.ix.stderr()[-400:]), key="failed:" + k))
                except Exception as x: self.err.append(x)
        ts = [threading.Thread(target=go, args=(self.e.r.random(), i < late), daemon=True) for i in range(threads)]
        for t in ts: t.start()
        for t in ts: t.join(300)
        if self.err: raise self.err[0]

def scenario(e):
    r = e.r; w = World(e, conf=r.choice([1, 2, 6]), naddr=r.choice([6, 12]), extra=r.choice([1, 6]), ntx=3, interval=r.choice([1, 20]), heavy=0.0, delays=r.choice([None, None, (20, 1)]))
    c = Clients(e, w); rounds = r.choice([2, 4])
    if e.idx == 5 or (e.tier == "thorough" and e.idx % 40 == 25):
        for t in c.unhurried(r, r.choice([33, 65, 125]) if e.tier == "thorough" else 65): t.join(300)
        if c.err: raise c.err[0]
        rounds = 1
    for i in range(rounds):
        n = r.choice([1, 3, 8]); c.round(n, r.choice([3, 8]), late=1 if i == 0 and e.idx % 4 == (e.idx // 8) % 4 else 0); c.n["max_parallel_%d" % n] += 1
        w.add(1); w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), r.choice([0, 2])); w.mem = w.settle_mempool(); w.node.set_mempool(w.mem); w.ix.sync(); c.refresh(); c.addrs = w.g.query_addrs()
    w.check("after all clients")
    for k, v in c.n.items(): e.cov[k] += v
    e.sig.append((rounds, r.getrandbits(30))); e.samples.append(dict(c.n))

def run():
    main("C24", scenario, required=("keepalive", "pipelined", "interleaved", "http10", "closing", "half_closed", "continued", "absolute", "get_with_body", "get_with_big_body", "aborted", "slow_reader", "max_parallel_8", "unhurried_head", "unhurried_body", "unhurried_chunks", "unhurried_pause"),
         rule="each scenario is a new random mix of client behaviours; counted by its seed", assumptions=["clients follow HTTP/1.0 or HTTP/1.1, except that some cut their request off"])
