from .common import *
import json

def scenario(e):
    r = e.r; conf = r.choice([1, 1, 2, 2, 3, 6]); hold = os.path.join(e.dir, "hold"); st = os.path.join(e.dir, "st"); os.mkdir(st)
    delays = r.choice([None, (30, 1), (50, 3)])
    w = World(e, conf=conf, naddr=6, delays=delays, start=False, interval=r.choice([0, 1, 1, 3]), store=os.path.join(st, "store.dat"), preload=e.bins["shim"], shim=dict(SHIM_PREFIX=st, SHIM_HOLD=hold))
    w.start(); w.check("after start")
    load = []; stop = threading.Event(); count = [0]; errs = []
    def client(seed):
        rr = random.Random(seed); addrs = w.g.query_addrs()
        h = w.ix.http(60)
        try:
            while not stop.is_set():
                k = rr.randrange(0, conf + 1)
                s = h.post("/addresses/%s?confirmations=%d" % (rr.choice(["utxos", "balance"]), k), json.dumps(addrs).encode())[0] if rr.random() < 0.5 else h.get("/addresses/%s/balance?confirmations=%d" % (rr.choice(addrs), k))[0]
                if s != 200: errs.append("status %d" % s); return
                count[0] += 1
        except Exception as x: errs.append(x)
    for round_ in range(r.choice([1, 2, 3])):
        # a promotion starts a write, which then does not get on
        held = False
        for attempt in range(6):
            w.ix.sync(1)
            open(hold, "w").close(); w.add(r.choice([1, 2])); w.ix.sync()
            end = time.monotonic() + 2
            while time.monotonic() < end and not os.path.exists(hold + ".held") : time.sleep(0.001)
            held = os.path.exists(hold + ".held")
            w.check("write %s" % ("under way" if held else "not started"))
            if held: break
            os.unlink(hold)
        if not held: raise P.Stuck("blocks were promoted but no store write started", w.ix)
        e.cov["held_writes"] += 1
        ths = []
        if r.random() < 0.6:
            ths = [threading.Thread(target=client, args=(r.getrandbits(50),), daemon=True) for _ in range(r.choice([1, 2, 4]))]
            for t in ths: t.start()
        for step in range(r.choice([2, 4, 8])):
            act = r.choice(["add", "add", "reorg", "mempool", "burst"]); e.sig.append(act)
            if act == "add": w.add(r.choice([1, 1, 2]))
            elif act == "burst": w.add(conf + 2)
            elif act == "mempool": w.mem = w.mem + w.g.mempool_txs(dict(w.pool()), 3)
            elif act == "reorg" and conf > 1:
                lo = max(0, w.max_tip - conf + 1); d = len(w.chain) - 1 - lo
                if d >= 1: w.present(w.branch(r.randrange(1, d + 1), r.choice([1, 2]))); e.cov["reorgs_during_write"] += 1
            w.settle_mempool(); w.node.set_mempool(w.mem)
            w.ix.sync(); w.check("during the write, step %d %s" % (step, act), balances=step % 2 == 0); e.cov["steps_during_write"] += 1
            if not os.path.exists(hold + ".held"): raise Inconclusive("write no longer held")
        if r.random() < 0.5: w.add(1)     # a block arrives around the moment the write ends
        os.unlink(hold)
        if r.random() < 0.5: w.add(1)
        w.settle_mempool(); w.node.set_mempool(w.mem)
        w.ix.sync(); w.check("after the write", balances=True); e.cov["writes_released"] += 1
        stop.set()
        for t in ths: t.join(60)
        if any(t.is_alive() for t in ths): raise P.Stuck("a client got no reply", w.ix)
        if errs:
            time.sleep(0.1)
            if not w.ix.alive(): raise P.Died("process exited with %s: %s" % (w.ix.p.returncode, w.ix.stderr()))
            if isinstance(errs[0], TimeoutError): raise P.Stuck("a client got no reply", w.ix)
            raise V("a query failed under load: %r" % errs[0], key="client")
        stop.clear(); e.cov["queries_under_load"] += count[0]; count[0] = 0
    # persistence goes on: some restart finds all blocks that were promoted
    ok = None
    for attempt in range(7):
        w.add(1); w.settle_mempool(); w.node.set_mempool(w.mem); w.ix.sync(); time.sleep(0.02 * 2 ** attempt); w.ix.sync()
        n = len(w.chain) - conf + 1; w.restart(); w.check("restart after the writes")
        fh = first_height(w.node, w.base)
        if fh == n: ok = attempt; break
    if ok is None: raise V("after the write ended, promoted blocks are not persisted: the store holds %s blocks, %d are promoted, in 7 attempts" % (fh, n), key="persist")
    e.cov["persisted_after_write"] += 1
    e.sig.append((conf, delays)); e.samples.append(dict(conf=conf, delays=delays, actions=[s for s in e.sig if isinstance(s, str)]))

def run():
    main("C09", scenario, need_bins=("hooked", "shim"), required=("held_writes", "steps_during_write", "reorgs_during_write", "queries_under_load", "writes_released", "persisted_after_write", "views_compared"), min_ok=6,
         rule="a scenario counts once per distinct configuration and sequence of events during held writes",
         assumptions=["bounded progress: a change shows after at most three further update cycles; watchdogs of 60 s only end a run, and must fire in two runs of a scenario to count"])
