from .common import *

def floor(w): return max(0, w.max_tip - w.conf + 1)   # highest block that may already be promoted: never abandoned

def restless(e):
    """Very deep switches, and many of them in one run."""
    r = e.r; conf = r.choice([40, 64, 110]); w = World(e, conf=conf, extra=r.choice([0, 3, 20]), heavy=0.0, naddr=6, ntx=1, interval=0)
    deep = 0; shallow = 280 if e.tier == "quick" else r.choice([300, 600])
    for i in range(4):
        d = r.choice([len(w.chain) - 1 - floor(w), r.randrange(conf // 2, conf)]); d = min(d, len(w.chain) - 1 - floor(w))
        if d >= 1: w.present(w.branch(d, 1)); deep = max(deep, d)
        w.ix.sync(); w.check("switch %d blocks deep" % d, ks={0, 1, conf // 2, conf, clamp(d, 1, conf), clamp(d + 1, 1, conf)}, balances=True); e.sig.append(d)
        if i % 2: w.add(conf // 2); w.ix.sync()
    for i in range(shallow):
        d = min(r.choice([1, 1, 2, 5]), len(w.chain) - 1 - floor(w))
        if d < 1: w.add(1)
        else: w.present(w.branch(d, 1))
        w.ix.sync(1)
        if i % 15 == 0: w.ix.sync(); w.check("switch number %d" % i, ks={0, 1, d + 1, conf})
    w.ix.sync(); w.check("after %d switches" % shallow, balances=True, ks=range(0, conf + 1, 7)); w.ix.sync(3); w.restart(); w.check("after restart", ks=range(0, conf + 1, 7))
    e.cov["switch_over_30_deep"] += deep > 30; e.cov["over_100_switches_in_one_run"] += 1

def siblings(e):
    """An abandoned block and the one in its place have partly equal hashes, and so have some transactions."""
    r = e.r; conf = r.choice([3, 4, 6]); w = World(e, conf=conf, extra=1 if conf == 3 else r.choice([0, 1]), collide=1, heavy=0.0, naddr=6, ntx=2); w.check("start", balances=True)
    for i in range(2):
        if i == 0 and r.random() < 0.5: w.mem = w.g.mempool_txs(dict(w.utxo()), 3); w.node.set_mempool(w.mem); w.ix.sync(); w.check("mempool")
        d = len(w.chain) - 2
        if d > len(w.chain) - 1 - floor(w): break
        before = w.chain[2] if len(w.chain) > 2 else None; w.present(w.branch(d, 1)); w.settle_mempool(); w.node.set_mempool(w.mem); w.ix.sync(); w.check("switch %d" % i, balances=True); e.sig.append((conf, d)); w.g.sibling = before
        if i == 0 and r.random() < 0.5: w.ix.sync(3); w.restart(); w.check("restart in between")
    w.add(2); w.ix.sync(); w.check("later"); w.add(conf); w.ix.sync(3); w.restart(); w.check("after restart", balances=True)

def scenario(e):
    r = e.r
    if e.idx % 12 == 7: return siblings(e)
    if e.idx == 6 or (e.tier == "thorough" and e.idx % 60 == 46): return restless(e)
    hold = os.path.join(e.dir, "hold"); st = os.path.join(e.dir, "st"); os.mkdir(st); held = r.random() < 0.4
    w = World(e, conf=r.choice([2, 3, 4, 6, 6, 8]), extra=r.choice([0, 1, 3, 8, 20]), delays=r.choice([None, None, (30, 1)]), heavy=r.choice([0.0, 0.02]),
              store=os.path.join(st, "store.dat"), **(dict(preload=e.bins["shim"], shim=dict(SHIM_PREFIX=st, SHIM_HOLD=hold)) if held else {}))
    g = w.g; branches = {}
    for step in range(r.choice([4, 7, 10])):
        act = r.choice(["reorg", "reorg", "reorg", "add", "back", "burst", "midcycle", "midcycle", "mempool", "restart", "gap"])
        h = len(w.chain) - 1; maxd = h - floor(w)
        if held and r.random() < 0.4:
            # from now on a store write does not get on, so that nothing is promoted until it is let go
            if os.path.exists(hold): os.unlink(hold); act = "add"
            else:
                w.ix.sync(1); open(hold, "w").close(); w.add(1); w.ix.sync(); h = len(w.chain) - 1; maxd = h - floor(w)
                e.sig.append("hold")
        if os.path.exists(hold + ".held"): e.cov["steps_while_a_store_write_hangs"] += 1
        e.sig.append(act)
        if act == "add": w.add(r.choice([1, 1, 2, w.conf]))
        elif act == "mempool":
            w.mem = w.mem + g.mempool_txs(dict(w.pool()), r.choice([1, 4])); w.node.set_mempool(w.mem)
        elif act == "restart": w.ix.sync(); w.restart(); e.cov["restarts"] += 1
        elif maxd < 1: w.add(1)
        elif act in ("reorg", "burst", "midcycle", "gap"):
            for _ in range(r.choice([2, 3]) if act == "burst" else 1):
                h = len(w.chain) - 1; maxd = h - floor(w)
                if maxd < 1: break
                d = r.choice([maxd, r.randrange(1, maxd + 1), 1]); ex = r.choice([1, 1, 1, 1, 2, 2, w.conf + 1])
                old = list(w.chain); branches[old[-1].hash] = old
                new = w.branch(d, ex, reuse=r.choice([0.0, 0.5, 1.0]))
                e.cov["reorg_depth_%d" % d] += 1; e.sig.append((d, ex))
                if r.random() < 0.5 and act not in ("midcycle", "gap"): # abandoned transactions return to the mempool
                    u = dict(g.m.at(new[-1].hash)); mem = []
                    for t in w.mem + [t for b in old[len(old) - d:] for t in b.txs[1:]]:
                        if M.acceptable(u, t): M.apply_tx(u, t); mem.append(t)
                    e.cov["resurrected"] += len(mem)
                    with w.node.lock: w.present(new); w.mem = mem; w.node.set_mempool(mem)
                elif act == "midcycle": midcycle(e, w, new)
                elif act == "gap": gap(e, w, new)
                else:
                    with w.node.lock: w.present(new); w.settle_mempool(); w.node.set_mempool(w.mem)
                if act == "burst": time.sleep(r.choice([0, 0.002, 0.01]))
        elif act == "back":
            # the node returns to a branch it had left, now longer
            cand = [c for c in branches.values() if c[-1].hash != w.tip.hash]
            if cand:
                old = r.choice(cand); k = 0
                while k < min(len(old), len(w.chain)) and old[k].hash == w.chain[k].hash: k += 1
                if k - 1 >= floor(w) and k < len(w.chain):
                    branches[w.tip.hash] = list(w.chain)
                    new = list(old)
                    while len(new) <= len(w.chain): new.append(g.block(new[-1]))
                    with w.node.lock: w.present(new); w.settle_mempool(); w.node.set_mempool(w.mem)
                    e.cov["returned_to_old_branch"] += 1
        w.ix.sync(); w.check("step %d %s" % (step, act), balances=step % 3 == 0); e.cov["steps"] += 1
    if os.path.exists(hold): os.unlink(hold)
    w.add(w.conf + 1); w.ix.sync(); w.check("after all became confirmed", balances=True)
    w.restart(); w.check("after restart"); e.cov["restarts"] += 1
    e.samples.append(dict(conf=w.conf, steps=[s for s in e.sig[1:]]))

def gap(e, w, new):
    """The node switches right after it has listed its mempool, and its next listing takes its time: until then the answers show either
    the old state or the new branch with what was last listed."""
    r = e.r; old = list(w.chain); mem = list(w.mem); seen = []
    w.ix.sync()
    def hook(node, method, params, seq):
        if method == "getrawmempool" and not seen: seen.append(1); node.set_chain(new); node.gates["getrawmempool"] = 0
    with w.node.lock: w.node.hook = hook
    if not w.node.wait(lambda: seen and w.node.held("getrawmempool") > 0, 30, w.ix.alive):
        if not w.ix.alive(): raise P.Died("process exited with %s: %s" % (w.ix.p.returncode, w.ix.stderr()))
        raise Inconclusive("no listing asked for")
    addrs = w.g.query_addrs(); end = time.monotonic() + 3
    while True:
        got = [w.ix.utxos(addrs, k) for k in w.ks()]; ds = []
        for ch in (new, old):
            d = None; u = w.g.m.at(ch[-1].hash)
            for k in w.ks():
                d = d or safe(P.compare_utxos, got[k], addrs, M.view(w.g.m.at(ch[-k].hash)) if k else M.view(M.mempool_view(u, mem, ())[0]))
                if d: d = "confirmations=%d: %s" % (k, d) if not d.startswith("conf") else d; break
            ds.append(d)
        if None in ds: break
        if time.monotonic() > end: raise V("between a switch and the next listing of the mempool the answers show neither the old branch (%s) nor the new one (%s)" % (ds[1], ds[0]), key="gap")
        time.sleep(0.05)
    e.cov["gaps"] += 1; e.cov["gap_new_branch" if ds[0] is None else "gap_old_branch"] += 1; e.cov["views_compared"] += len(got)
    with w.node.lock:
        w.node.hook = None; w.present(new); w.settle_mempool(); w.node.set_mempool(w.mem)
    w.node.ungate("getrawmempool")

def midcycle(e, w, new):
    """The node switches between two requests of the same update cycle; if nothing else happens the cycle is made to fetch blocks."""
    r = e.r; w.mem = []; old = list(w.chain)
    pre = []
    if r.random() < 0.6:   # let the indexer be on its way up the old branch when the switch comes
        # keeps the fork within reach: blocks on the old branch must stay below the new tip
        room = len(new) - len(old) - 1
        for _ in range(min(room, r.choice([1, 2, 3]))): pre.append(w.g.block((old + pre)[-1], ntx=1))
    full = old + pre
    if len(full) - w.conf > len(set_common(full, new)) - 1: full, pre = old, []
    n = r.randrange(1, 2 + 2 * max(1, len(pre))); after = r.random() < 0.5; count = [0]; fired = threading.Event()
    want = r.choice(["getblockhash", "getblock", "any"] if pre else ["getblockhash", "any"])
    def hook(node, method, params, seq):
        if fired.is_set() or not (method == want or (want == "any" and method in ("getblockhash", "getblock", "getrawmempool"))): return None
        count[0] += 1
        if count[0] < n: return None
        fired.set()
        if after:
            st, val = node.answer(method, params); node.set_chain(new)
            import json as J
            return ("raw", st, J.dumps({"result": val if st == 200 else None, "error": None if st == 200 else val, "id": "indexer"}).encode())
        node.set_chain(new); return None
    with w.node.lock: w.node.set_mempool([]); w.node.set_chain(full); w.node.hook = hook
    if not w.node.wait(fired.is_set, 3 if want == "getblock" else 30, w.ix.alive) and want != "getblock": w.ix.sync(1)
    with w.node.lock: w.node.hook = None; w.present(new)
    w.max_tip = max(w.max_tip, len(full) - 1, len(new) - 1)
    if fired.is_set(): e.cov["midcycle_switches"] += 1; e.cov["midcycle_before_" + want] += 1

def set_common(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k].hash == b[k].hash: k += 1
    return a[:k]

def run():
    main("C03", scenario, need_bins=("hooked", "shim"), required=("partly_equal_hashes", "sibling_with_partly_equal_hash", "views_compared", "switch_over_30_deep", "over_100_switches_in_one_run", "steps_while_a_store_write_hangs", "reorg_depth_1", "reorg_depth_2", "reorg_depth_5", "remined", "conflicting", "midcycle_switches", "restarts", "returned_to_old_branch", "resurrected", "gaps"),
         rule="a scenario counts once per distinct configuration and sequence of arrivals, switches (depth, excess) and restarts",
         assumptions=["the node switches only to strictly longer branches and keeps serving abandoned blocks by hash"])
