from .common import *
import json, socket, struct

class Meter:
    """Live heap, descriptors and threads of a process at quiescent points, one sample per round of the same work."""
    def __init__(self, e, w): self.e = e; self.w = w; self.heap = []; self.blocks = []; self.fds = []; self.threads = []; self.files = []
    def read(self):
        with open(self.w.heapfile, "rb") as f: return struct.unpack("<qqq", f.read(24))
    def sample(self):
        w = self.w; best = None; fd = th = None
        try: base = os.listdir("/proc/%d/fd" % w.ix.p.pid)
        except OSError: raise P.Died("process exited with %s: %s" % (w.ix.p.wait(), w.ix.stderr()))
        end = time.monotonic() + 0.04; n = 0
        while time.monotonic() < end or n < 8:
            b = self.read(); best = b if best is None or b[0] < best[0] else best; n += 1; time.sleep(0.004)
            try:
                k = len(os.listdir("/proc/%d/fd" % w.ix.p.pid)); fd = k if fd is None else min(fd, k)
                k = len(os.listdir("/proc/%d/task" % w.ix.p.pid)); th = k if th is None else min(th, k)
            except OSError: raise P.Died("process exited with %s: %s" % (w.ix.p.wait(), w.ix.stderr()))
        self.heap.append(best[0]); self.blocks.append(best[1]); self.fds.append(fd); self.threads.append(th); self.files.append(len(os.listdir(e_store_dir(w))))
        self.allocs = best[2]
    def judge(self, what, warm, headers=0, n=2000):
        """Two signs of growth with the number of rounds: it goes on from each quarter to the next, or the last third lies above the first
        by more than tables of the program and its runtime that once double can explain. headers: bytes per round that may accumulate."""
        e = self.e
        for name, xs, small, big, per in (("live heap bytes", self.heap, 25000, 100000 + 400 * n, headers), ("open descriptors", self.fds, 1, 4, 0), ("threads", self.threads, 1, 4, 0), ("files beside the store", self.files, 0, 1, 0)):
            xs = [x - per * i for i, x in enumerate(xs)][warm:]; t = len(xs) // 3; q = len(xs) // 4
            mid = [sorted(xs[i * q:(i + 1) * q])[q // 2] for i in range(4)]; steps = [mid[i + 1] - mid[i] for i in range(3)]; gap = min(xs[-t:]) - max(xs[:t])
            if min(steps) > small or gap > big: raise V("%s: %s keep growing over %d rounds of the same work: medians of the quarters %s (%s)" % (what, name, len(xs), mid, " ".join(map(str, xs[::max(1, len(xs) // 12)]))), dict(series=self.heap, fds=self.fds), key=what + ":" + name)
            if name[0] == "l": e.samples.append(dict(what=what, rounds=len(xs), heap_quarters=mid, smallest_step=min(steps), fds=self.fds[-1], threads=self.threads[-1]))
        e.cov["rounds"] += len(self.heap); e.cov["allocations_seen"] += self.allocs; e.sig.append((what, len(self.heap), e.idx))

def e_store_dir(w): return w.sdir

def world(e, **kw):
    sdir = os.path.join(e.dir, "store"); os.makedirs(sdir); heap = os.path.join(e.dir, "heap")
    w = World(e, heavy=0.0, ntx=1, naddr=6, start=False, preload=e.bins["heap"], env=dict(HEAP_FILE=heap), store=os.path.join(sdir, "store.dat"), interval=2, **kw)
    w.heapfile = heap; w.sdir = sdir; return w

def scripts(r, n): return [(r.choice([0, 546, 5000]), (C.p2pkh_script if i & 1 else C.p2sh_script)(r.randbytes(20))) for i in range(n)]

def carrier(w, prev, n):
    """A block after prev whose one transaction spends all outputs of the previous such transaction and creates n for addresses never seen."""
    r = w.e.r; u = w.g.m.at(prev.hash); last = prev.txs[1] if len(prev.txs) > 1 else None
    keys = [(last.txid, i) for i in range(len(last.outs)) if (last.txid, i) in u] if last else []
    keys = keys or [next(iter(u))]
    t = C.Tx([(k[0], k[1], b"", 0xFFFFFFFF) for k in keys], scripts(r, n), locktime=r.getrandbits(32))
    cb = C.Tx([(C.ZERO, 0xFFFFFFFF, b"\x04" + r.randbytes(8), 0)], [(0, b"\x6a")])      # nothing else adds to the outputs
    return w.g.block(prev, txs=[t], ntx=0, coinbase=cb)

def size(e): return (2000, 33) if e.tier == "quick" else (e.r.choice([500, 5000]), e.r.choice([33, 90]))

def blocks(e):
    n, R = size(e); w = world(e, conf=e.r.choice([1, 2, 4]), extra=2); w.start(); m = Meter(e, w)
    for i in range(R):
        b = carrier(w, w.tip, n); w.chain.append(b); w.node.add_block(b); w.max_tip += 1; w.ix.sync(2)
        for old in w.chain[:-w.conf - 2]: w.g.m.drop(old.hash)
        m.sample()
    # 64 bytes per block are the header kept of each
    m.judge("blocks that replace all outputs", w.conf + 6, 256, n); e.cov["block_rounds"] += R
    w.check("after %d rounds" % R, addrs=w.g.query_addrs() + [C.script_addr(o[1]) for o in w.tip.txs[1].outs[:40]])

def reorgs(e):
    n, R = size(e); w = world(e, conf=e.r.choice([2, 3, 5]), extra=3); w.start(); m = Meter(e, w); d = e.r.randrange(1, w.conf)
    for i in range(w.conf + 1): b = carrier(w, w.tip, n); w.chain.append(b); w.node.add_block(b)
    w.ix.sync()
    for i in range(R):
        new = w.chain[:-d]; 
        while len(new) < len(w.chain) + 1: new.append(carrier(w, new[-1], n))
        for old in w.chain[-d:]: w.g.m.drop(old.hash)
        for old in new[:-w.conf - 3]: w.g.m.drop(old.hash)
        w.present(new); w.ix.sync(2); m.sample(); e.cov["reorgs"] += 1
    m.judge("reorganisations", 6, 256, n)
    w.check("after %d reorganisations" % R, addrs=w.g.query_addrs() + [C.script_addr(o[1]) for o in w.tip.txs[1].outs[:40]])

def mempool(e):
    n, R = size(e); w = world(e, conf=e.r.choice([1, 3]), extra=4); w.start(); m = Meter(e, w); r = e.r; u = list(w.utxo()); kind = ["replaced", "unacceptable", "absent", "emptied", "returning"][(e.idx // 4) % 5]; k = r.choice([1, 4]); keep = None
    for i in range(R):
        if kind == "absent": ids = [C.Tx([(r.randbytes(32), 0, b"", 0)], [(1, b"")]) for _ in range(300)]; w.node.unavailable = {t.id for t in ids}; w.mem = []; w.node.set_mempool(ids)
        else:
            src = lambda j: (r.randbytes(32), j) if kind == "unacceptable" else u[j % len(u)]
            txs = [C.Tx([src(j) + (b"", 0)], scripts(r, n // k), locktime=r.getrandbits(32)) for j in range(min(k, len(u)))]
            if kind == "returning" and i: txs = keep + txs if i & 1 else txs
            if kind == "returning" and keep is None: keep = txs
            w.mem = txs; w.node.set_mempool(txs)
        w.ix.sync(2)
        if kind == "emptied": w.mem = []; w.node.set_mempool([]); w.ix.sync(2)
        if kind == "returning" and i & 1: continue
        m.sample()
    m.judge("mempool (%s)" % kind, 6, 0, n); e.cov["mempool_" + kind] += 1; e.cov["mempool_rounds"] += R
    w.check("after %d mempools" % R)

def requests(e):
    r = e.r; R = 33; w = world(e, conf=2, extra=5); w.start(); m = Meter(e, w); g = w.g; n = 150 if e.tier == "quick" else 300; held = []
    for i in range(R):
        h = w.ix.http(20)
        for j in range(n):
            k = j % 9; l = json.dumps([r.choice(g.query_addrs()) if r.random() < 0.5 else C.p2pkh_addr(r.randbytes(20)) for _ in range(r.choice([1, 30]))]).encode()
            try:
                if k == 0: h.get("/addresses/%s/utxos" % C.p2sh_addr(r.randbytes(20)))
                elif k == 1: h.post("/addresses/utxos?confirmations=%d" % r.choice([0, 1, 2]), l)
                elif k == 2: h.post("/addresses/balance", l)
                elif k == 3: h.get("/addresses/%s/balance" % r.randbytes(30).hex())
                elif k == 4: h.post("/addresses/balance", r.choice([b"[1]", b"{", b"\xff", b"[" * 200])); h.get("/%s" % r.randbytes(40).hex())
                elif k == 5: h.close(); h = w.ix.http(20)
                elif k == 6:
                    s = socket.create_connection((w.ix.ip, w.ix.port), 10); s.sendall(r.choice([b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nContent-Length: 500000\r\n\r\n[" + b"x" * 5000, b"GET / HT", b"\x16\x03\x01" * 50, b"", b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffff\r\n" + b"y" * 3000]))
                    if r.random() < 0.5: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close(); e.cov["connections_aborted"] += 1
                elif k == 7: h.get("/addresses/%s/balance?confirmations=%s&%s=1" % (g.addrs[0], r.choice(["0", "9", "x"]), r.randbytes(6).hex()))
                else: h.raw(b"OPTIONS /addresses/utxos HTTP/1.1\r\nHost: x\r\nX-%s: y\r\n\r\n" % r.randbytes(5).hex().encode())
                e.cov["requests"] += 1
            except P.HttpError: h.close(); h = w.ix.http(20)
        h.close()
        if r.random() < 0.3: w.add(1); w.mem = w.settle_mempool()
        w.ix.h.close(); w.ix.sync(2)
        # connections that were closed are noticed as such
        end = time.monotonic() + 10
        while m.fds and time.monotonic() < end and len(os.listdir("/proc/%d/fd" % w.ix.p.pid)) > max(m.fds[:6]): time.sleep(0.005)
        m.sample()
    m.judge("requests and connections", 6, 256); w.check("after %d requests" % (R * n)); e.cov["request_rounds"] += R

def pipelined(s, reqs):
    """Send requests on one connection in one piece and read as many replies."""
    s.sendall(b"".join(reqs)); buf = b""; got = []
    while len(got) < len(reqs):
        i = buf.find(b"\r\n\r\n")
        if i >= 0:
            h = buf[:i].lower(); j = h.index(b"content-length:") + 15; n = int(h[j:].split(b"\r\n")[0])
            if len(buf) >= i + 4 + n: got.append(int(h[9:12])); buf = buf[i + 4 + n:]; continue
        d = s.recv(1 << 18)
        if not d: raise OSError("closed after %d of %d replies" % (len(got), len(reqs)))
        buf += d
    return got

def kinds(e, w):
    """One kind of request per entry, no two requests the same: what is remembered of any of them adds up."""
    r = e.r; g = w.g; x = lambda n: r.randbytes(n).hex(); fresh = lambda: C.p2pkh_addr(r.randbytes(20)); a0 = g.addrs[0]; H = " HTTP/1.1\r\nHost: x\r\n"
    get = lambda p, h="": ("GET " + p + H + h + "\r\n").encode()
    post = lambda p, b: ("POST " + p + H + "Content-Length: %d\r\n\r\n" % len(b)).encode() + b
    return [("unknown path", 404, lambda: get("/" + x(60))), ("unknown path with a known beginning", 404, lambda: get("/addresses/%s/%s" % (a0, x(40)))),
        ("no address", 400, lambda: get("/addresses/%s/balance" % x(60))), ("wrong checksum", 400, lambda: get("/addresses/%s/utxos" % ((lambda a: a[:-6] + a[-5:] + a[-6])(fresh()) + "11"))),
        ("confirmations", 400, lambda: get("/addresses/%s/balance?confirmations=%d" % (a0, r.randrange(10 ** 6, 10 ** 18)))), ("confirmations as text", 400, lambda: get("/addresses/%s/utxos?confirmations=%s" % (a0, "x" + x(40)))),
        ("no JSON", 400, lambda: post("/addresses/balance", b"{" + x(60).encode())), ("list with a wrong address", 400, lambda: post("/addresses/utxos", json.dumps([a0, x(40)]).encode())),
        ("method", 404, lambda: ("%s /addresses/%s/balance" % (r.choice(["PUT", "DELETE", "OPTIONS", "PATCH", "X" + x(4).upper()]), fresh()) + H + "\r\n").encode()),
        ("unused parameter", 200, lambda: get("/addresses/%s/balance?%s=%s" % (a0, x(20), x(20)))), ("header", 200, lambda: get("/addresses/%s/balance" % a0, "X-%s: %s\r\nCookie: %s\r\nUser-Agent: %s\r\n" % (x(10), x(20), x(20), x(20)))),
        ("address without outputs", 200, lambda: get("/addresses/%s/utxos?confirmations=%d" % (fresh(), r.choice([0, 1, 2])))), ("list by GET", 200, lambda: get("/addresses/balance?addresses=%s,%s" % (fresh(), fresh()))), ("list by POST", 200, lambda: post("/addresses/utxos", json.dumps([fresh(), fresh(), a0]).encode()))]

def alike(e):
    """Thousands of requests of one kind after another, each kind judged on its own."""
    r = e.r; R = 21 if e.tier == "quick" else 45; w = world(e, conf=2, extra=5); w.start(); n = 400 if e.tier == "quick" else 1500; all_ = kinds(e, w); part = {6: 0, 7: 1, 10: 2, 11: 3}[e.idx % 16]
    for name, status, make in all_[part::4]:
        m = Meter(e, w)
        for i in range(R):
            s = socket.create_connection((w.ix.ip, w.ix.port), 60)
            try:
                for j in range(0, n, 50):
                    got = set(pipelined(s, [make() for _ in range(50)]))
                    if got != {status}: raise V("requests of the kind '%s' were answered %s instead of %d" % (name, sorted(got), status), key="alike:" + name)
            except OSError as x: raise V("requests of the kind '%s': %r (process alive: %s)" % (name, x, w.ix.alive()), key="alike:" + name)
            finally: s.close()
            e.cov["requests"] += n; end = time.monotonic() + 10
            while m.fds and time.monotonic() < end and len(os.listdir("/proc/%d/fd" % w.ix.p.pid)) > max(m.fds[:6]): time.sleep(0.005)
            m.sample()
        m.judge("requests of one kind: " + name, 4, 0); e.cov["kinds_of_requests"] += 1
    w.check("after requests of one kind"); e.cov["alike_%d" % part] += 1

def connections(e):
    """Tens of thousands of connections that come and go, each from an address of its own; a request on some."""
    r = e.r; R = 33; w = world(e, conf=2, extra=5); w.start(); m = Meter(e, w); n = 800 if e.tier == "quick" else 3000; k = 0
    for i in range(R):
        for j in range(n):
            s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); s.settimeout(20); k += 1
            s.bind(("127.%d.%d.%d" % (1 + k // 62500 % 250, 1 + k // 250 % 250, 1 + k % 250), 0))
            try:
                s.connect((w.ix.ip, w.ix.port))
                if j % 16 == 0: s.sendall(b"GET /addresses/%s/balance HTTP/1.1\r\nHost: x\r\n\r\n" % w.g.addrs[0].encode()); s.recv(1); e.cov["requests"] += 1
            except OSError as x:
                time.sleep(0.1); raise V("connection %d could not be used: %r (process alive: %s)" % (k, x, w.ix.alive()), key="connections")
            s.close()
        if r.random() < 0.3: w.add(1); w.mem = w.settle_mempool()
        w.ix.h.close(); w.ix.sync(2); end = time.monotonic() + 10
        while m.fds and time.monotonic() < end and len(os.listdir("/proc/%d/fd" % w.ix.p.pid)) > max(m.fds[:6]): time.sleep(0.005)
        m.sample()
    m.judge("connections from different addresses", 6, 256, 100); w.check("after %d connections" % k); e.cov["connections"] += k

def scenario(e):
    if e.idx % 16 == 15: return connections(e)
    if e.idx % 16 in (6, 7, 10, 11): return alike(e)
    (blocks, mempool, reorgs, requests)[e.idx % 4](e)

def run():
    main("C22", scenario, need_bins=("hooked", "heap"), required=("block_rounds", "mempool_replaced", "mempool_unacceptable", "mempool_absent", "mempool_emptied", "mempool_returning", "reorgs", "request_rounds", "alike_0", "alike_1", "alike_2", "alike_3", "connections", "connections_aborted"),
         rule="a scenario counts once per (kind of work, rounds, scenario)", assumptions=["live heap is what malloc handed out and did not get back; memory the program maps itself is not seen", "64 bytes of header per block of the chain are allowed to accumulate"])
