from .common import *
import json, socket

Z = '["1111111111111111111114oLvT2"]'
METHODS = ("getrawmempool", "getrawtransaction", "getblockhash", "getblock")

def probe(e, ix, where, patience):
    """A query sent now gets no answer."""
    e.cov["probes"] += 1
    try: s = socket.create_connection((ix.ip, ix.port), 2)
    except ConnectionRefusedError: e.cov["refused"] += 1; return
    except OSError: return
    try:
        s.settimeout(patience); k = e.r.choice(["", "?confirmations=0", "?confirmations=0", "?confirmations=1", "?confirmations=%d" % ix.confirmations]); p = e.r.choice(["utxos", "balance"])
        s.sendall(e.r.choice(["GET /addresses/1111111111111111111114oLvT2/%s%s HTTP/1.1\r\nHost: x\r\n\r\n" % (p, k), "POST /addresses/%s%s HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\n[]" % (p, k), "POST /addresses/%s%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s" % (p, k, len(Z), Z)]).encode())
        d = s.recv(64)
        if d: raise V("answered %r while %s" % (d[:40], where), dict(where=where), key="early")
        e.cov["closed_unanswered"] += 1
    except (socket.timeout, TimeoutError): e.cov["accepted_unanswered"] += 1
    except (ConnectionError, BrokenPipeError): pass
    finally: s.close()

def scenario(e):
    r = e.r; kind = r.choice(["first", "first", "restart", "absence", "absence"])
    w = World(e, extra=r.choice([0, 1, 3, 8]), start=False, heavy=0.0, ntx=r.choice([1, 2, 4]), naddr=6, delays=r.choice([None, None, (30, 2)]), interval=r.choice([0, 1, 50])); n = w.node
    if kind == "absence": w.infiles = len(w.chain)
    if kind != "first":
        shutil.rmtree(os.path.join(e.dir, "blocks")); G.write_files(os.path.join(e.dir, "blocks"), w.chain[:w.infiles]); w.start(); w.ix.sync(1); w.ix.kill()
    if kind == "absence":
        d = r.randrange(0, w.conf)
        if d and len(w.chain) - d >= 2 and r.random() < 0.5: w.present(w.branch(d, 1)); e.cov["reorg_while_away"] += 1
        w.add(r.choice([1, 5, 20, 60]), ntx=1)
    w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), r.choice([0, 1, 5])); n.set_mempool(w.mem)
    una = {t.txid for t in w.mem if r.random() < 0.1}; n.unavailable = {t[::-1].hex() for t in una}
    for m in METHODS: n.gate(m, 0)
    grow = r.choice([0, 0, 1, 3]); steps = 0
    skip = r.choice([1, 1, 3]); free = r.randrange(skip)
    w.start(wait=False); ix = w.ix; where = "nothing was answered"
    pool = absent = False     # whether the node has said what its mempool and what its tip is
    while True:
        end = time.monotonic() + 60; done = False
        while not n.waiting and ix.alive() and not done:
            if pool and absent and ix.listening(): done = True
            elif time.monotonic() > end: raise P.Stuck("no request for 60 s during start", ix)
            else: n.wait(lambda: len(n.waiting) > 0, 0.005, ix.alive)
        if not ix.alive(): raise P.Died("process exited with %s during start: %s" % (ix.p.wait(), ix.stderr()))
        if done: break
        with n.lock: _, m, params, _, seq = n.waiting[0]
        if pool and absent and m != "getrawtransaction": break      # the first synchronisation is over, this is a later cycle
        where = "the reply to %s %s (request %d of start-up) is held back" % (m, str(params)[:40], steps + 1)
        last = m == "getblockhash" and params[0] >= len(n.chain)
        if steps % skip == free or last:
            if r.random() < 0.2: time.sleep(r.choice([0.005, 0.03]))
            probe(e, ix, where, 0.03)
        if last and grow: grow -= 1; w.add(1); e.cov["grew_during_start"] += 1; last = False
        steps += 1; e.cov["held_" + m] += 1; absent = absent or last; pool = pool or m == "getrawmempool"
        n.permit(m); n.wait(lambda: all(x[4] != seq for x in n.waiting), 10)
    # now the second cycle cannot get anywhere: the answers are those of the first synchronisation
    ix.wait_ready()
    w.check("first answers (%s)" % kind, pool=w.pool(una)); e.cov["start_" + kind] += 1; e.cov["with_mempool" if w.mem else "without_mempool"] += 1
    n.ungate(); n.unavailable = set(); w.add(1); w.settle_mempool(); n.set_mempool(w.mem); ix.sync(); w.check("later", ks=[0, 1, w.conf])
    e.sig.append((kind, steps, len(w.mem), skip)); e.samples.append(dict(kind=kind, held_replies=steps, conf=w.conf))

def scenario_slow(e):
    """No gates: replies are late at random while clients keep trying; the first answer comes after the last reply of the first synchronisation."""
    r = e.r; w = World(e, start=False, heavy=0.0, ntx=2, naddr=6, extra=r.choice([0, 3, 10]), delays=r.choice([None, (40, 3)]), interval=500); n = w.node
    w.mem = w.g.mempool_txs(w.utxo(), 3); n.set_mempool(w.mem); want = M.view(w.pool()); final = [None]
    n.delay = lambda m: r.choice([0, 0, 0.001, 0.01, 0.05])
    def hook(nn, m, params, seq):
        if m == "getblockhash" and params[0] >= len(nn.chain) and final[0] is None: final[0] = time.monotonic()
    n.hook = hook; got = []; addrs = w.g.query_addrs()
    w.start(wait=False); ix = w.ix; end = time.monotonic() + 60
    while not got and ix.alive() and time.monotonic() < end:
        for k in (0, 1, w.conf):
            t0 = time.monotonic()
            try: h = ix.http(20); x = h.post("/addresses/utxos?confirmations=%d" % k, json.dumps(addrs).encode()); h.close(); got.append((k, t0, time.monotonic(), x))
            except (OSError, P.HttpError): break
        e.cov["attempts"] += 1; time.sleep(0.0005)
    if not got:
        if not ix.alive(): raise P.Died("process exited with %s during start: %s" % (ix.p.wait(), ix.stderr()))
        raise P.Stuck("no answer within 60 s", ix)
    for k, t0, t1, (st, _, b) in got:
        if final[0] is None or t1 < final[0]: raise V("confirmations=%d answered (%d) before the node had said what its tip is" % (k, st), key="early")
        if st != 200: raise V("first answer has status %d" % st, key="status")
        d = safe(P.compare_utxos, P.parse(b), addrs, want if k == 0 else M.view(w.g.m.at(w.chain[-k].hash)))
        if d: raise V("first answer for confirmations=%d: %s" % (k, d), key="incomplete")
    e.cov["slow_starts"] += 1; e.sig.append(("slow", w.conf, len(w.chain)))

def scenario_far(e):
    """Hundreds of blocks behind; polling is so rare that the first answers are those of the first synchronisation."""
    r = e.r; w = World(e, start=False, heavy=0.0, ntx=1, naddr=6, extra=r.choice([0, 5]), delays=None, interval=20000); restart = r.random() < 0.5
    G.write_files(os.path.join(e.dir, "blocks"), w.chain)
    if restart: w.start(); w.ix.kill()
    n = r.choice([101, 150, 300, 520, 1050, 2100] if e.tier == "quick" else [130, 300, 520, 1050, 2100, 4200])
    w.g.extend(w.chain, n, ntx=0); w.add(2); w.present(w.chain); w.mem = w.g.mempool_txs(w.utxo(), r.choice([0, 40])); w.node.set_mempool(w.mem)
    w.start(wait=False); w.ix.wait_ready(150); w.check("first answers, %d blocks behind" % n); e.cov["far_behind"] += 1; e.cov["far_blocks"] += n
    e.sig.append(("far", n, restart)); e.samples.append(dict(kind="far behind", blocks=n))

def pick(e):
    if e.idx % 10 == 3: return scenario_far(e)
    return (scenario_slow if e.idx % 5 == 4 else scenario)(e)

def run():
    main("C18", pick, required=("far_behind", "probes", "start_first", "start_restart", "start_absence", "held_getrawmempool", "held_getrawtransaction", "held_getblockhash", "held_getblock", "grew_during_start", "slow_starts", "with_mempool", "views_compared"),
         rule="a scenario counts once per distinct (kind of start, number of held replies, mempool size)", assumptions=["a query unanswered for 30 ms while a reply is held back is one that is not answered"])
