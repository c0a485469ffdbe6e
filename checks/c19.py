from .common import *
import fcntl, json, socket, subprocess

INTS = ["", " ", "abc", "-1", "1.5", "0x10", " 6", "6 ", "6\n", "1e3", "6,0", "６", "½", "NaN", "true", "--1", "1_000", "18446744073709551616", "99999999999999999999999999"]
PORTS = ["65536", "65537", "131072", "4294967296", "80:80", "http"]
HOSTS = ["", " ", "localhost", "256.0.0.1", "1.2.3", "127.0.0.1:8000", " 127.0.0.1", "127.0.0.1 ", "::g", "[::1]", "127.0.0.1/8", "host", "127,0,0,1", "0x7f.0.0.1.1"]
BAD = {"HOST": HOSTS, "PORT": INTS + PORTS, "THREADS": INTS, "BATCH_SIZE": INTS + ["0", "00", "0"], "CONFIRMATIONS": INTS + ["0", "0", "000"], "UPDATE_INTERVAL": INTS, "RPC_SERVER_PORT": INTS + PORTS}
PAIRS = [(v, x) for v in sorted(BAD) for x in BAD[v]]
REQUIRED = ["THREADS", "BATCH_SIZE", "STORE_FILE_PATH", "BLOCK_FILES_PATH", "RPC_SERVER_HOST", "RPC_SERVER_PORT", "RPC_SERVER_USER", "RPC_SERVER_PASSWORD"]
OPTIONAL = ["HOST", "PORT", "CONFIRMATIONS", "UPDATE_INTERVAL"]

def listening(pid):
    """(address, port) of every socket our own process listens on."""
    ino = set()
    try:
        for f in os.listdir("/proc/%d/fd" % pid):
            try: l = os.readlink("/proc/%d/fd/%s" % (pid, f))
            except OSError: continue
            if l.startswith("socket:["): ino.add(l[8:-1])
    except OSError: return set()
    out = set()
    for fam, f in ((socket.AF_INET, "tcp"), (socket.AF_INET6, "tcp6")):
        try: lines = open("/proc/net/" + f).read().split("\n")[1:]
        except OSError: continue
        for l in lines:
            c = l.split()
            if len(c) > 9 and c[3] == "0A" and c[9] in ino:
                a, p = c[1].split(":"); b = bytes.fromhex(a)
                b = b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4)); out.add((socket.inet_ntop(fam, b), int(p, 16)))
    return out

def snapshot(d):
    return sorted((os.path.join(a, f), os.path.getsize(os.path.join(a, f))) for a, _, fs in os.walk(d) for f in fs if not f.startswith("stderr."))

def refuse(e):
    r = e.r; w = World(e, extra=1, start=False, heavy=0.0, ntx=1, naddr=6, conf=2); n = w.node; have_store = r.random() < 0.3
    if have_store: w.start(); w.ix.kill()
    ix = e.indexer("hooked", n, **w.kw); env = dict(ix.env); bad = []
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.randrange(3)
        if k == 0: v = REQUIRED[(e.idx // 3) % len(REQUIRED)] if not bad else r.choice(REQUIRED); env.pop(v, None); bad.append((v, None)); e.cov["missing_" + v] += 1
        elif k == 1: v, x = PAIRS[(e.idx * 7 + len(bad)) % len(PAIRS)]; env[v] = x; bad.append((v, x)); e.cov["malformed_" + v] += 1; e.cov["zero"] += x.strip("0") == "" and x != ""
        else: v = r.choice(REQUIRED + OPTIONAL); x = r.choice([b"\xff", b"6\xff", b"\xc3", b"127.0.0.1\x80", b"\xed\xa0\x80"]); env[v] = x; bad.append((v, x)); e.cov["not_unicode_" + v] += 1
    before = snapshot(e.dir); seq0 = n.seq; why = "with %s" % bad; e.note(why); conns = [0]
    p = subprocess.Popen([ix.binary], env={os.fsencode(k): v if isinstance(v, bytes) else os.fsencode(v) for k, v in env.items()}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(e.dir, "stderr.1"), "wb"), preexec_fn=P._pdeath, cwd=e.dir)
    ix.p = p; ix.errfile = os.path.join(e.dir, "stderr.1"); end = time.monotonic() + 20
    while p.poll() is None and time.monotonic() < end:
        l = listening(p.pid)
        if l: raise V("%s the process listens on %s" % (why, l), dict(set=bad), key="listens:" + bad[0][0])
        if n.seq != seq0: raise V("%s the node was contacted" % why, dict(set=bad), key="contacts:" + bad[0][0])
        time.sleep(0.001)
    if p.poll() is None: raise V("%s the process still runs after 20 s" % why, dict(set=bad), key="runs:" + bad[0][0])
    if p.returncode == 0: raise V("%s the process ends with status 0" % why, dict(set=bad), key="status:" + bad[0][0])
    if n.seq != seq0: raise V("%s the node was contacted" % why, dict(set=bad), key="contacts:" + bad[0][0])
    if snapshot(e.dir) != before: raise V("%s files were created or changed: %s" % (why, [x for x in snapshot(e.dir) if x not in before][:3]), dict(set=bad), key="creates:" + bad[0][0])
    e.cov["refused"] += 1; e.sig.append(tuple(map(str, bad))); e.samples.append(dict(refused=str(bad)))

_lock = "/tmp/bi-default-port.lock"
class PortLock:
    def __enter__(self): self.f = open(_lock, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def free(ip, port):
    try: s = socket.socket(socket.AF_INET6 if ":" in ip else socket.AF_INET); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind((ip, port)); s.close(); return True
    except OSError: return False

def honour(e):
    r = e.r; which = r.choice(["host", "host", "all_default", "port", "host_default"])
    ip = P.fresh_ip(); host = ip; port = r.choice([8000, 1024, 49152, 65535, r.randrange(32001, 65535)]); shown = ip; shared = True
    if which == "all_default": host = None; port = None; ip = shown = "127.0.0.1"
    elif which == "host_default": host = None; ip = shown = "127.0.0.1"; port = 20000 + os.getpid() % 10000
    elif which == "host" and r.random() < 0.25:
        host = r.choice(["0.0.0.0", "::1", "::"]); shown = host; ip = {"0.0.0.0": "127.0.0.1", "::1": "::1", "::": "::1"}[host]; port = 20000 + os.getpid() % 10000
    else:
        shared = False
        if which == "port": port = None
    if not shared: return settle(e, which, host, port, ip, shown)
    with PortLock():
        if not free(shown, port or 8000): e.cov["address_not_free"] += 1; return
        settle(e, which, host, port, ip, shown)

def settle(e, which, host, port, ip, shown):
    r = e.r; cdef = r.random() < 0.4; conf = 6 if cdef else r.choice([1, 2, 3, 5, 7, 8, 20, 20, 270]); idef = r.random() < 0.25
    interval = 1000 if idef else r.choice([0, 1, 50, 200, 700, 10**12, 2**64 - 1])
    g = G.Gen(r, naddr=6, heavy=0.0); chain = g.new_chain(conf + 2, ntx=2)
    name = None      # the node named by a host name or an IPv6 address
    if r.random() < 0.3: name, at = r.choice([("localhost", "127.0.0.1"), ("[::1]", "::1")])
    if name == "[::1]" and not free("::1", 0): name = None
    n = e.node(host=at if name else None, user=r.choice(["user", "", "ü"]), password=r.choice(["p:w", "", "x" * 70])); n.set_chain(chain)
    sub = r.choice(["b", "dir with space", "ünï", "a/b/c", "b"]); path = os.path.join(e.dir, sub); st = os.path.join(e.dir, r.choice(["s.dat", "store file", "störe", "x/y/z.bin"]))
    os.makedirs(os.path.dirname(st), exist_ok=True); G.write_files(path, chain)
    # decoys in the places a wrong path would lead to
    g2 = G.Gen(r, naddr=6, heavy=0.0); decoy = g2.new_chain(conf + 4, ntx=1); G.write_files(e.dir, decoy); G.write_files(os.path.join(e.dir, "blocks"), decoy)
    before = snapshot(e.dir)
    rel = r.random() < 0.3; bp, sp = (os.path.relpath(path, e.dir), os.path.relpath(st, e.dir)) if rel else (path, st)
    bp += r.choice(["", "", "/"])
    th = r.choice([1, 2, 3, 100]); ba = r.choice([1, 5, 1000, 10**12, 2**63, 2**64 - 1])
    ix = e.indexer("hooked", n, threads=th, batch=ba, confirmations=conf, interval=interval, store=sp, blocks=bp, ip=ip, port=port or 8000,
                   env={"HOST": host, "PORT": None if port is None else str(port), "RPC_SERVER_HOST": name or n.host, "CONFIRMATIONS": None if cdef else str(conf), "UPDATE_INTERVAL": None if idef else str(interval), "host": "0.0.0.0", "BITCOIN_PORT": "1", "RPC_USER": "no"})
    e.note("HOST", host, "PORT", port, "CONFIRMATIONS", None if cdef else conf, "UPDATE_INTERVAL", None if idef else interval, bp, sp, th, ba)
    ix.start().wait_ready(); what = "HOST=%s PORT=%s" % (host, port)
    l = listening(ix.p.pid)
    if l != {(shown, port or 8000)}: raise V("%s: listens on %s" % (what, sorted(l)), key="address")
    e.cov["address_" + ("default" if host is None else "v6" if ":" in host else "set")] += 1; e.cov["port_" + ("default" if port is None else "set")] += 1
    if name: e.cov["node_by_name" if name[0] != "[" else "node_by_ipv6"] += 1
    if conf > 100: e.cov["depths_over_256"] += 1
    views_ok(e, ix, g, chain, range(0, conf + 1) if conf < 100 else [0, 1, 100, 254, 255, 256, 257, conf - 1, conf], None, "CONFIRMATIONS=%s" % (None if cdef else conf), True, g.m.at(chain[-1].hash))
    for k in (conf + 1, conf + 2, 10 * conf, 2**32 + conf, 2**64 - 1, 6 if conf < 6 else conf + 6):
        s, _, b = ix.call("GET", "/addresses/%s/balance?confirmations=%d" % (g.addrs[0], k))
        if s != 400: raise V("CONFIRMATIONS=%s: confirmations=%d answered %d" % (None if cdef else conf, k, s), key="depth")
    e.cov["depth_default" if cdef else "depth_set"] += 1
    auth = {tuple(t[3]["auth"]) for t in n.trace}
    if auth != {(N.basic(n.user, n.password),)}: raise V("credentials sent: %s" % auth, key="auth")
    new = [x for x in snapshot(e.dir) if x not in before]
    if [x[0] for x in new] != [st]: raise V("STORE_FILE_PATH=%s: files created %s" % (sp, new), key="store")
    e.cov["relative_paths" if rel else "absolute_paths"] += 1
    t = lambda: [x[3]["t"] for x in n.trace if x[1] == "getrawmempool"]
    if interval > 10**6:
        time.sleep(0.3)
        if len(t()) != 1: raise V("UPDATE_INTERVAL=%d: polled again at once" % interval, key="interval")
        e.cov["interval_huge"] += 1
    else:
        need = 3 if interval >= 700 else 6
        if not n.wait(lambda: n.n.get("getrawmempool", 0) >= need + 1, 60, ix.alive): raise P.Stuck("no polls with UPDATE_INTERVAL=%d" % interval, ix)
        ts = t()[1:need + 1] if len(t()) > need + 1 else t()[:need + 1]
        gaps = sorted(1000 * (b - a) for a, b in zip(ts, ts[1:])); med = gaps[len(gaps) // 2]
        if med < interval * 0.8 - 3: raise V("UPDATE_INTERVAL=%s: polls every %.0f ms" % (None if idef else interval, med), key="interval")
        if gaps[0] > interval * 1.5 + 400: raise V("UPDATE_INTERVAL=%s: polls not more often than every %.0f ms" % (None if idef else interval, gaps[0]), key="interval")
        e.cov["interval_default" if idef else "interval_set"] += 1
    e.cov["honoured"] += 1; e.sig.append((host and which, port, conf, cdef, interval, idef, sub, rel, th, ba)); e.samples.append(dict(HOST=host, PORT=port, CONFIRMATIONS=None if cdef else conf, UPDATE_INTERVAL=None if idef else interval))
    # a second one cannot have the same address: it ends with a failure and does not disturb the first
    if r.random() < 0.3 and interval < 1000:
        d2 = os.path.join(e.dir, "second"); os.makedirs(d2)
        i2 = e.indexer("hooked", n, dir_=d2, threads=1, batch=1, confirmations=conf, interval=1, store=os.path.join(d2, "s"), blocks=path, ip=ip, port=port or 8000, env={"HOST": host, "PORT": None if port is None else str(port)}).start()
        c = i2.wait_exit(30)
        if c is None: raise V("%s is in use, yet a second process keeps running" % what, key="in_use")
        if c == 0: raise V("%s is in use, the second process ended with status 0" % what, key="in_use")
        views_ok(e, ix, g, chain, [1], None, "with a second process refused", False); e.cov["address_in_use"] += 1
    ix.kill()

def slow_polls(e):
    """Intervals longer than any bound someone may have put on them: three processes side by side, the node's clock decides."""
    r = e.r; g = G.Gen(r, naddr=6, heavy=0.0); chain = g.new_chain(4, ntx=1); runs = []
    for i, interval in enumerate((10**9, 2**40, 31000) if e.tier == "quick" else (10**9, 2**63, 400000, 31000)):
        d = os.path.join(e.dir, "s%d" % i); n = e.node(); n.set_chain(chain); G.write_files(os.path.join(d, "b"), chain)
        ix = e.indexer("hooked", n, dir_=d, confirmations=2, interval=interval, store=os.path.join(d, "s"), blocks=os.path.join(d, "b")).start(); ix.wait_ready(); runs.append((interval, n, ix))
    start = time.monotonic(); t = lambda n: [x[3]["t"] for x in n.trace if x[1] == "getrawmempool"]; length = 66 if e.tier == "quick" else r.choice([66, 130, 320])
    while time.monotonic() < start + length:
        time.sleep(0.5)
        for interval, n, ix in runs:
            if not ix.alive(): raise P.Died("UPDATE_INTERVAL=%d: process exited with %s: %s" % (interval, ix.p.wait(), ix.stderr()))
            ts = t(n); gaps = [1000 * (b - a) for a, b in zip(ts, ts[1:])]
            if gaps and min(gaps) < interval * 0.98 - 20: raise V("UPDATE_INTERVAL=%d: polled again after %.0f ms" % (interval, min(gaps)), key="interval")
    for interval, n, ix in runs:
        if interval < 40000 and not len(t(n)) > 1: raise V("UPDATE_INTERVAL=%d: not polled within %d s" % (interval, length), key="interval")
    e.cov["slow_polls"] += 1; e.sig.append("slow polls")

def scenario(e):
    if e.idx == 6 or e.idx % 64 == 38: return slow_polls(e)
    if e.idx % 16 < 4 and e.idx % 8 % 2 == 0 or e.idx % 8 == 7: honour(e)
    else: refuse(e)

def run():
    main("C19", scenario, required=["refused", "slow_polls", "honoured", "address_default", "address_set", "port_default", "port_set", "depth_default", "depth_set", "interval_default", "interval_set", "interval_huge", "address_in_use", "zero", "relative_paths", "node_by_name", "depths_over_256"] + ["missing_" + v for v in REQUIRED] + ["malformed_" + v for v in BAD],
         rule="a scenario counts once per distinct assignment of the variables", assumptions=["THREADS=0, PORT=0 and an empty path or host are outside what is specified", "polling distance is judged by the median (lower bound) and the minimum (upper bound) of several gaps"])
