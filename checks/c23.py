from .common import *
import json, mmap, struct, subprocess

def world(e, **kw):
    kw.setdefault("heavy", 0.0); kw.setdefault("ntx", 2); kw.setdefault("naddr", 8); kw.setdefault("extra", e.r.choice([1, 4, 10]))
    return World(e, start=False, **kw)

def act(w, hot=None):
    """One change of the node's state; returns its name."""
    r = w.e.r; k = r.randrange(6)
    if k < 2: w.add(r.choice([1, 1, 2, w.conf + 1]))
    elif k < 4: w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), r.choice([1, 3]))
    elif k == 4 and w.conf > 1:
        d = min(r.randrange(1, w.conf), len(w.chain) - 1 - (w.max_tip - (w.conf - 1)))
        if d > 0: w.present(w.branch(d, 1)); w.e.cov["reorgs"] += 1
    else: w.mem = []
    w.mem = w.settle_mempool(); w.node.set_mempool(w.mem)

def survived(w, what):
    """Nothing was lost: everything the node shows becomes visible and answers are right."""
    try: w.ix.sync(); w.check(what, balances=w.e.r.random() < 0.2)
    except P.Died as x: raise V("%s: %s" % (what, x), key=what.split(" (")[0])

# ---- the wall clock is set
def clock(e):
    r = e.r; path = os.path.join(e.dir, "clock")
    with open(path, "wb") as f: f.write(b"\0" * 4096)
    f = open(path, "r+b"); mm = mmap.mmap(f.fileno(), 4096); steps = []
    def now(): return struct.unpack("<q", mm[:8])[0]
    def reads(): return struct.unpack("<q", mm[8:16])[0]
    def step():
        if r.random() < 0.6: d = -r.choice([1, 10**6, 10**9, 3600 * 10**9, 86400 * 10**9, 20 * 365 * 86400 * 10**9])
        else: d = r.choice([1, 10**6, 10**9, 3600 * 10**9, 50 * 365 * 86400 * 10**9])
        o = max(-45 * 365 * 86400 * 10**9, min(150 * 365 * 86400 * 10**9, now() + d)); mm[:8] = struct.pack("<q", o); steps.append(d); e.cov["clock_backwards" if d < 0 else "clock_forwards"] += 1
    w = world(e, preload=e.bins["clock"], env=dict(CLOCK_FILE=path)); n = w.node; p = r.choice([0.02, 0.1, 0.4])
    inside = lambda nn, m, params, seq: step() if r.random() < p else None      # between a request and its reply, in the middle of a cycle
    n.hook = inside if r.random() < 0.7 else None
    w.start(wait=False); end = time.monotonic() + 60
    while not w.ix.listening():
        if not w.ix.alive(): raise V("the clock is set during start: process exited with %s: %s" % (w.ix.p.wait(), w.ix.stderr()), dict(steps=steps[-3:]), key="clock")
        if time.monotonic() > end: raise P.Stuck("not listening 60 s after start", w.ix)
        if r.random() < 0.5: step()
        time.sleep(r.choice([0.0005, 0.002]))
    w.ix.wait_ready()
    for i in range(r.choice([4, 10])):
        act(w)
        for _ in range(r.choice([0, 1, 5])): step(); time.sleep(r.choice([0, 0.001, 0.004]))
        survived(w, "the clock is set (last steps %s ns)" % steps[-2:])
    w.ix.kill(); n.hook = None; seen = reads()
    if not seen: e.cov["clock_never_read"] += 1
    e.cov["clock_reads"] += seen; e.cov["clock_runs"] += 1; e.sig.append((len(steps), seen)); e.samples.append(dict(clock_steps=len(steps), clock_reads=seen))

# ---- the node words its replies differently
def styles(e):
    r = e.r; w = world(e); n = w.node; only = r.choice([None, None, n.STYLES[(e.idx // 5) % len(n.STYLES)]]); used = Counter()
    def style(m, seq):
        s = only or r.choice(n.STYLES + (None,)); used[s or "plain"] += 1; return s
    n.style = style
    try: w.start(); w.check("start, replies %s" % (only or "mixed"))
    except P.Died as x: raise V("replies in another form (%s): %s" % (only or "mixed", x), key="style:%s" % only)
    for i in range(r.choice([3, 6])): act(w); survived(w, "replies in another form (%s)" % (only or "mixed"))
    for k, c in used.items(): e.cov["reply_" + k] += c
    e.cov["style_runs"] += 1; e.sig.append((only, sum(used.values()))); e.samples.append(dict(replies=dict(used)))

# ---- idle connections are closed by the node
def idle(e):
    r = e.r; w = world(e, interval=250); n = w.node; closed = 0
    w.start()
    for i in range(5 if e.tier == "quick" else 15):
        act(w); w.ix.sync(r.choice([1, 2]))
        # the reply to the last getblockhash of a cycle ends it; well before the next one starts, its connections are closed
        k = n.count("getrawmempool"); n.wait(lambda: n.n.get("getrawmempool", 0) > k, 20, w.ix.alive); time.sleep(0.07)
        c = n.seq; had = len(n.conns); n.drop_idle(); time.sleep(0.03)
        if n.seq != c: e.cov["idle_close_too_late"] += 1
        elif had: closed += 1
        try: w.ix.sync(1); w.ix.sync(); w.check("connections closed while idle")
        except P.Died as x:
            if n.seq != c + 0 and e.attempt < 2: raise Inconclusive("ended around an idle close: %s" % x)     # unless it does so each time, a request may have crossed the close
            raise V("the node closes idle connections: %s" % x, key="idle")
    e.cov["idle_closes"] += closed; e.cov["idle_runs"] += 1; e.sig.append((closed, e.idx))

# ---- signals that do not ask a process to end, and being stopped for a while
def signals(e):
    r = e.r; w = world(e, delays=r.choice([None, (30, 2)])); w.start(wait=False); sig = [signal.SIGWINCH, signal.SIGURG, signal.SIGCHLD, signal.SIGCONT]
    long = e.idx in (2, 9); shot = []
    def shoot(k):
        for _ in range(k):
            s = r.choice(sig + ["stop"])
            try:
                if s == "stop": os.kill(w.ix.p.pid, signal.SIGSTOP); time.sleep(2.5 if long and not shot else r.choice([0.001, 0.02, 0.1])); shot.append(1); os.kill(w.ix.p.pid, signal.SIGCONT); e.cov["stopped"] += 1
                else: os.kill(w.ix.p.pid, s); e.cov["signals"] += 1
            except OSError: return
            time.sleep(r.choice([0, 0.0005, 0.003]))
    if r.random() < 0.6: shoot(4)
    try: w.ix.wait_ready()
    except P.Died as x: raise V("signals during start: %s" % x, key="signals")
    for i in range(r.choice([3, 6])):
        act(w); shoot(r.choice([1, 5, 20])); survived(w, "signals")
    e.cov["signal_runs"] += 1; e.sig.append(e.idx)

# ---- whoever reads the log falls behind
def log(e):
    r = e.r; rd, wr = os.pipe()
    try:
        import fcntl
        fcntl.fcntl(wr, 1031, 4096)      # F_SETPIPE_SZ
    except OSError: pass
    st = dict(stall=False, stop=False, n=0)
    def reader():
        while not st["stop"]:
            if st["stall"]: time.sleep(0.002); continue
            try: d = os.read(rd, r2.choice([1, 100, 65536]))
            except OSError: return
            if not d: return
            st["n"] += len(d)
    r2 = random.Random(r.random()); w = world(e, stdout=wr); w.start(wait=False); os.close(wr); t = threading.Thread(target=reader, daemon=True); t.start()
    try:
        w.ix.wait_ready()
        for i in range(r.choice([3, 5])):
            st["stall"] = True; act(w); time.sleep(r.choice([0.02, 0.1, 0.3])); e.cov["log_stalls"] += 1
            if not w.ix.alive(): raise V("a log that is read late: process exited with %s: %s" % (w.ix.p.wait(), w.ix.stderr()), key="log")
            st["stall"] = False; survived(w, "a log that is read late")
        e.cov["log_bytes"] += st["n"]; e.cov["log_runs"] += 1; e.sig.append((st["n"], e.idx))
    finally:
        w.ix.kill(); st["stop"] = True; st["stall"] = False; t.join(2); os.close(rd)

# ---- the node takes its time: what was known is served meanwhile
def slow(e):
    r = e.r; w = world(e); n = w.node; w.start(); w.check("before")
    for i in range(r.choice([3, 6])):
        before = list(w.chain); mem = list(w.mem); pool = w.pool(); m = r.choice(["getrawmempool", "getblockhash", "getblock", "getrawtransaction"]); k = r.choice([0, 1, 2])
        n.gate(m, k if m in ("getblock", "getrawtransaction") else k + 1); act(w)
        if not n.wait(lambda: n.waiting, 1, w.ix.alive): n.ungate(); survived(w, "nothing was held"); continue
        e.cov["held_" + m] += 1; old = [(before, pool)]
        ok = {0: [M.view(pool), M.view(w.g.m.at(before[-1].hash)), M.view(w.pool()), M.view(M.mempool_view(w.g.m.at(before[-1].hash), w.mem)[0])]}
        for k in range(1, w.conf + 1): ok[k] = [M.view(w.g.m.at(before[-k].hash)), M.view(w.g.m.at(w.chain[-k].hash))]
        addrs = w.g.query_addrs(); h = w.ix.http(20); t0 = time.monotonic(); n.waiting and time.sleep(0.01)
        for j in range(8):
            k = r.randrange(1, w.conf + 1); q0 = time.monotonic()
            try: st, _, b = h.post("/addresses/utxos?confirmations=%d" % k, json.dumps(addrs).encode())
            except (TimeoutError, socket_timeout): raise V("no answer within 20 s while the node has not yet replied to %s" % m, dict(held=m), key="slow:" + m)
            except (OSError, P.HttpError) as x:
                time.sleep(0.2)
                raise V("a query failed while the node has not yet replied to %s: %r (process alive: %s)" % (m, x, w.ix.alive()), key="slow:" + m)
            if st != 200: raise V("status %d while the node has not yet replied to %s" % (st, m), key="slow:" + m)
            ds = [safe(P.compare_utxos, P.parse(b), addrs, v) for v in ok[k]]
            if all(ds) and w.e.cov is not None: e.cov["intermediate_states"] += 1     # several blocks may have been applied one after the other: C08 judges that
            e.cov["answers_while_held"] += 1; e.cov["slowest_answer_ms_over_100"] += (time.monotonic() - q0) > 0.1
        h.close(); n.ungate(); survived(w, "after a slow reply to %s" % m)
    e.cov["slow_runs"] += 1; e.sig.append(e.idx)

# ---- a single reply takes longer than anyone's patience; nothing is given up, and nothing is missing afterwards
def patient(e, drip=False):
    r = e.r; w = world(e, delays=None); n = w.node; m = ("getblockhash", "getrawmempool", "getblock", "getrawtransaction")[e.idx // 10 % 4]; atstart = m == "getblockhash" or r.random() < 0.3; secs = (65 if e.idx < 10 else 33) if e.tier == "quick" else r.choice([33, 65, 125])
    seen = threading.Event()
    def hook(node, method, params, seq):
        if method != m or seen.is_set(): return None
        st, val = node.answer(method, params)
        if st != 200 or not val: return None
        seen.set(); return ("drip", json.dumps({"result": val, "error": None, "id": "indexer"}).encode(), secs)
    def held(what):
        end = time.monotonic() + secs; h = None
        while time.monotonic() < end:
            if not w.ix.alive(): raise V("%s: process exited with %s: %s" % (what, w.ix.p.wait(), w.ix.stderr()), key="patient:" + m)
            if not atstart:
                h = h or w.ix.http(20)
                try: st, _, _ = h.post("/addresses/utxos?confirmations=1", json.dumps(w.g.addrs).encode())
                except (OSError, P.HttpError) as x: time.sleep(0.2); raise V("%s: a query failed: %r" % (what, x), key="patient:" + m)
                if st != 200: raise V("%s: status %d" % (what, st), key="patient:" + m)
                e.cov["answers_while_held"] += 1
            time.sleep(0.25)
        if h: h.close()
    if atstart:
        w.mem = w.g.mempool_txs(dict(w.utxo()), 3); n.set_mempool(w.mem); 
        if m == "getblock": w.add(2)
        if drip: n.hook = hook
        else: n.gate(m, 0)
        w.start(wait=False)
    else:
        w.start(); n.hook = hook if drip else None
        if not drip: n.gate(m, 0 if m in ("getblock", "getrawtransaction") else r.choice([0, 1]))
        w.add(1); w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), 3); n.set_mempool(w.mem)
    what = "%s answered %s %d s%s" % (m, "bit by bit over" if drip else "after", secs, " during start" if atstart else "")
    if n.wait(lambda: seen.is_set() if drip else n.waiting, 20, w.ix.alive): held(what); e.cov[("long_drip_" if drip else "long_hold_") + m] += 1
    n.ungate()
    try: w.ix.wait_ready(60)
    except P.Died as x: raise V("%s: %s" % (what, x), key="patient:" + m)
    survived(w, what); act(w); survived(w, "later on, " + what); e.cov["long_holds"] += 1; e.sig.append((m, atstart, secs))

from collections import Counter
import socket as _s
socket_timeout = _s.timeout

def scenario(e):
    if e.idx in (4, 14, 24, 34) or (e.tier == "thorough" and e.idx % 10 == 4 and e.r.random() < 0.15): return patient(e, True)
    if e.idx in (8, 18, 28, 38) or (e.tier == "thorough" and e.idx % 10 == 8 and e.r.random() < 0.15): return patient(e)
    (clock, styles, signals, slow, clock, styles, log, slow, idle, signals)[e.idx % 10](e)

def run():
    main("C23", scenario, need_bins=("hooked", "clock"), workers=12, required=("clock_runs", "long_holds", "long_drip_getblock", "long_drip_getrawmempool", "clock_backwards", "clock_forwards", "style_runs", "reply_chunked", "reply_bytewise", "reply_escaped", "reply_closing", "idle_closes", "stopped", "signals", "log_stalls", "answers_while_held", "held_getblock", "held_getblockhash", "held_getrawmempool", "held_getrawtransaction", "reorgs"),
         rule="a scenario counts once per distinct kind and amount of disturbance", assumptions=["the wall clock is what clock_gettime(CLOCK_REALTIME), gettimeofday and time report", "a request that crosses the closing of its connection is a failed exchange"])
