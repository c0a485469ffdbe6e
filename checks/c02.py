from .common import *

def add_txs(w, n):
    """n more acceptable transactions after the listed ones."""
    u = dict(w.pool(w.unavail_ids)); fresh = [k for t in w.mem[-4:] for k in ((t.txid, i) for i in range(len(t.outs))) if k in u]
    new = w.g.mempool_txs(u, n, fresh); w.mem = w.mem + new
    return new

def push(w): w.node.set_mempool(w.mem)

def scenario(e):
    r = e.r
    if e.idx % 5 == 3: return racing(e)
    if e.idx % 10 == 2: return stepped(e)
    if e.idx == 7 or (e.tier == "thorough" and e.idx % 60 == 47): return patient(e)
    if e.idx == 5 or (e.tier == "thorough" and e.idx % 60 == 45): return huge(e)
    if e.idx % 30 == 11: return twins(e)
    if e.idx == 6 or (e.tier == "thorough" and e.idx % 60 == 46): return crowded(e)
    w = World(e, heavy=r.choice([0.0, 0.02]), delays=r.choice([None, None, (30, 1)]), start=False)
    w.unavail_ids = set()          # internal ids the node refuses to supply
    if r.random() < 0.5: add_txs(w, r.choice([1, 4, 20])); push(w)
    w.start(); w.check("after start", balances=True)
    hidden = []                    # (tx, children) listed while unavailable
    for step in range(r.choice([6, 10, 16])):
        act = r.choice(["add", "add", "chain", "evict", "replace", "conflict", "unavailable", "return", "orphan", "mine", "mine", "minefew", "empty", "shuffle", "reappear"])
        e.sig.append(act); before = list(w.mem)
        if act == "add": add_txs(w, r.choice([1, 2, 5]))
        elif act == "chain":
            for _ in range(r.choice([3, 8, 25])):
                u = w.pool(w.unavail_ids); fr = [(w.mem[-1].txid, i) for i in range(len(w.mem[-1].outs))] if w.mem else []
                fr = [k for k in fr if k in u]
                if not fr: add_txs(w, 1); continue
                w.mem = w.mem + [w.g.spend(u, [r.choice(fr)], nout=r.choice([1, 2]))]
            e.cov["unconfirmed_chains"] += 1
        elif act == "evict" and w.mem:
            t = r.choice(w.mem); drop = {t.txid}
            for x in w.mem:
                if any(i[0] in drop for i in x.ins): drop.add(x.txid)
            w.mem = [x for x in w.mem if x.txid not in drop]; e.cov["evicted"] += len(drop)
        elif act == "replace" and w.mem:
            t = r.choice(w.mem); i = w.mem.index(t)
            u = M.mempool_view(w.utxo(), w.mem[:i], w.unavail_ids)[0]
            if M.acceptable(u, t):
                n = w.g.spend(u, [k[:2] for k in t.ins]); drop = {t.txid}
                for x in w.mem:
                    if any(k[0] in drop for k in x.ins): drop.add(x.txid)
                w.mem = [n if x is t else x for x in w.mem if x is t or x.txid not in drop]; e.cov["replaced"] += 1
        elif act == "conflict" and w.mem:
            # listed although it spends what an earlier listed transaction spends: skipped
            t = r.choice(w.mem); i = w.mem.index(t)
            u = M.mempool_view(w.utxo(), w.mem[:i], w.unavail_ids)[0]
            if M.acceptable(u, t): w.mem = w.mem + [w.g.spend(u, [t.ins[0][:2]])]; e.cov["listed_conflict"] += 1
        elif act in ("unavailable", "orphan"):
            # a parent the node cannot supply, with descendants listed after it: all skipped until it can be had
            u = w.pool(w.unavail_ids); ts = w.g.mempool_txs(dict(u), 1)
            if ts:
                p = ts[0]; u2 = dict(u); M.apply_tx(u2, p); kids = w.g.mempool_txs(u2, r.choice([0, 1, 3]), [(p.txid, i) for i in range(len(p.outs)) if (p.txid, i) in u2])
                if act == "unavailable":
                    with w.node.lock: w.node.unavailable.add(p.id)
                    w.unavail_ids.add(p.txid); w.mem = w.mem + [p] + kids; hidden.append(p)
                    e.cov["unavailable"] += 1
                else: w.mem = w.mem + kids; hidden.append((p, len(w.mem) - len(kids))); e.cov["orphans"] += len(kids)
        elif act == "return" and hidden:
            h = hidden.pop()
            if isinstance(h, tuple):
                if M.acceptable(w.pool(w.unavail_ids), h[0]): w.mem = [h[0]] + w.mem if M.acceptable(w.utxo(), h[0]) else w.mem; e.cov["parent_arrived"] += 1
            else:
                with w.node.lock: w.node.unavailable.discard(h.id)
                w.unavail_ids.discard(h.txid); e.cov["available_again"] += 1
        elif act in ("mine", "minefew"):
            u = dict(w.utxo()); txs = []
            for t in w.mem:
                if t.txid not in w.unavail_ids and M.acceptable(u, t) and r.random() < (0.9 if act == "mine" else 0.3): M.apply_tx(u, t); txs.append(t)
            conf = []
            if r.random() < 0.4:   # mine something conflicting with a listed transaction
                for t in w.mem:
                    if t not in txs and t.txid not in w.unavail_ids and M.acceptable(u, t):
                        c = w.g.spend(u, [t.ins[0][:2]]); M.apply_tx(u, c); conf.append(c); e.cov["mined_conflict"] += 1; break
            b = w.g.block(w.tip, txs=txs + conf, ntx=r.choice([0, 0, 2]))
            mined = {t.txid for t in b.txs}
            nm = [t for t in w.mem if t.txid not in mined]
            with w.node.lock:
                w.chain.append(b); w.node.add_block(b); w.mem = nm
                if r.random() < 0.5: w.settle_mempool()
                push(w)
            e.cov["mined_mempool_txs"] += len(txs); e.cov["blocks_mined"] += 1
        elif act == "empty": w.mem = []; e.cov["emptied"] += 1
        elif act == "shuffle":
            # another order that keeps parents first
            left = list(w.mem); out = []; ids = {t.txid for t in left}; done = set()
            while left:
                ok = [t for t in left if all(i[0] not in ids or i[0] in done for i in t.ins)]
                t = r.choice(ok); left.remove(t); out.append(t); done.add(t.txid)
            w.mem = out; e.cov["reordered"] += 1
        elif act == "reappear" and before:
            # gone for some cycles, then listed again
            w.mem = []; push(w); w.ix.sync(); w.check("mempool emptied for a while", ks=[0]); w.mem = before; e.cov["reappeared"] += 1
        push(w); w.ix.sync()
        u, a, s = M.mempool_view(w.utxo(), w.mem, w.unavail_ids)
        e.cov["applied"] += a; e.cov["skipped"] += s
        w.check("step %d %s, mempool %d" % (step, act, len(w.mem)), ks=[None, 0], balances=step % 2 == 0, pool=u)
        if step % 3 == 2: w.check("step %d %s" % (step, act), ks=range(1, w.conf + 1), pool=u)
    e.samples.append(dict(conf=w.conf, actions=[s for s in e.sig if isinstance(s, str)]))

def crowded(e):
    """Thousands of transactions in the mempool, long lines of descendants among them."""
    r = e.r; n = 5000 if e.tier == "quick" else r.choice([9000, 20000]); w = World(e, conf=r.choice([1, 3, 6]), extra=4, heavy=0.0, naddr=8, ntx=2, start=False, interval=20); g = w.g; w.unavail_ids = set()
    w.chain.append(g.block(w.tip, coinbase=g.coinbase(len(w.chain), nout=n // 2, value=10**13, scripts=[C.p2pkh_script(r.choice(g.hs)) for _ in range(n // 2)]), ntx=0)); w.chain.append(g.block(w.tip, ntx=1)); w.node.set_chain(w.chain); w.max_tip = len(w.chain) - 1
    u = dict(w.utxo()); free = list(u); r.shuffle(free); line = None; mem = []
    while len(mem) < n:
        if line is None or r.random() < 0.002: line = None
        key = line if line in u and r.random() < 0.4 else free.pop() if free else None
        if key is None or key not in u: line = None; continue
        t = g.spend(u, [key], nout=r.choice([1, 1, 2]), scripts=[C.p2pkh_script(r.choice(g.hs)), g.addr_script()]); M.apply_tx(u, t); mem.append(t)
        outs = [(t.txid, i) for i in range(len(t.outs)) if (t.txid, i) in u]; line = outs[0] if outs else None; free += outs[1:]
    def show(m, what):
        w.mem = m; push(w); w.ix.sync(); u, a, s = M.mempool_view(w.utxo(), w.mem); e.cov["applied"] += a; w.check(what, ks=[None, 0, 1], balances=True, pool=u)
    if r.random() < 0.5: w.mem = mem; push(w)
    w.start(); show(mem, "%d transactions listed" % n)
    show(mem[:n // 3] + mem[n // 2:], "with a part in the middle gone")
    show(mem, "with that part back")
    w.chain.append(g.block(w.tip, txs=mem[:n // 2], ntx=0)); w.node.set_chain(w.chain); show(mem[n // 2:], "half of them mined"); show([], "none left"); show(mem[n // 2:], "back again")
    e.cov["mempool_over_2500"] += 1; e.sig.append(("crowded", n))

def huge(e):
    """More transactions listed than 16 bits count."""
    r = e.r; n = 66500; w = World(e, conf=2, extra=3, heavy=0.0, naddr=6, ntx=1, start=False, interval=50, collide=0); g = w.g; w.unavail_ids = set(); m = 600
    w.chain.append(g.block(w.tip, coinbase=g.coinbase(len(w.chain), nout=m, value=10**13, scripts=[C.p2pkh_script(r.choice(g.hs)) for _ in range(m)]), ntx=0)); w.chain.append(g.block(w.tip, ntx=1)); w.node.set_chain(w.chain); w.max_tip = len(w.chain) - 1
    cb = w.chain[-2].txs[0]; u = w.utxo(); line = [(cb.txid, i, cb.outs[i][0]) for i in range(m) if (cb.txid, i) in u]; sc = [C.p2pkh_script(h) for h in g.hs]; mem = []; lock = 0
    while len(mem) < n:     # hundreds of lines of descendants, each transaction handing everything on
        i = r.randrange(len(line)); h, o, v = line[i]; lock += 1; t = C.Tx([(h, o, b"", 0xFFFFFFFF)], [(v, r.choice(sc))], locktime=lock); mem.append(t); line[i] = (t.txid, 0, v)
    w.node.trace_on = False; w.start(); w.mem = mem; push(w); w.ix.sync(2, 400); u, a, s = M.mempool_view(w.utxo(), w.mem); e.cov["applied"] += a; w.check("%d transactions listed" % n, ks=[None, 1], balances=True, pool=u)
    w.mem = mem[:40]; push(w); w.ix.sync(2, 400); w.check("all but 40 gone", ks=[0, 1]); e.cov["mempool_over_65536"] += 1; e.sig.append(("huge", n))

def patient(e):
    """Transactions that stay listed for thousands of update cycles, and others that come and go meanwhile."""
    r = e.r; n = 3000 if e.tier == "quick" else 70000; w = World(e, conf=r.choice([1, 3]), extra=2, heavy=0.0, naddr=6, ntx=2, interval=0); w.unavail_ids = set()
    add_txs(w, 6); push(w); w.ix.sync(); w.check("at first", ks=[0, 1]); keep = list(w.mem); left = n
    while left > 0:
        k = min(left, r.choice([300, 700, 1500]) if e.tier == "quick" else 9000); w.ix.sync(k, 60 + k // 10); left -= k; e.cov["cycles_with_the_same_transactions"] += k
        w.check("after %d update cycles" % (n - left), ks=[None, 0, 1], balances=True)
        if r.random() < 0.5: w.mem = keep + w.g.mempool_txs(dict(M.mempool_view(w.utxo(), keep)[0]), r.choice([0, 3])); push(w)
        if r.random() < 0.5: w.add(1, ntx=0); w.settle_mempool(); push(w)
        w.ix.sync(); w.check("a change after %d update cycles" % (n - left), ks=[0, 1])
    e.sig.append(("patient", n))

def twins(e):
    """Transactions whose ids agree in eight of their bytes, in the mempool together, in every order, alone, and one mined under the other."""
    r = e.r; w = World(e, conf=r.choice([1, 2, 3]), extra=r.choice([3, 6]), heavy=0.0, ntx=2, naddr=8, collide=2, hold_twins=True); w.unavail_ids = set(); g = w.g
    pairs = g.pending; g.pending = []; r.shuffle(pairs)
    def show(m, what):
        w.mem = m; push(w); w.ix.sync(); e.cov["twins_listed"] += len(m); w.check("twins: " + what, ks=[None, 0, 1], balances=True)
    show(pairs, "all at once")
    for i in range(r.choice([4, 8])):
        k = r.sample(pairs, r.randrange(len(pairs) + 1)); show(k, "%d of them" % len(k))
    show(pairs[::-1], "all again"); half = pairs[:len(pairs) // 2]
    w.chain.append(g.block(w.tip, txs=half, ntx=1)); w.node.set_chain(w.chain); w.max_tip += 1; show([t for t in pairs if t not in half], "half of them mined")
    e.sig.append(("twins", len(pairs)))

def racing(e):
    """The node changes in the middle of an update cycle; the state is inspected after that very cycle."""
    r = e.r; w = World(e, conf=r.choice([2, 3, 6]), ntx=2, extra=6)
    w.unavail_ids = set(); g = w.g
    for step in range(r.choice([5, 8])):
        if not w.mem or r.random() < 0.7: add_txs(w, r.choice([2, 5, 9])); push(w); w.ix.sync()
        kind = r.choice(["block_after_listing", "block_after_listing", "evict_after_listing", "two_blocks", "reorg_after_listing"])
        old_chain = list(w.chain); old_mem = list(w.mem)
        if kind == "reorg_after_listing" and w.conf > 1:
            new = w.branch(r.randrange(1, w.conf), r.choice([1, 2]), reuse=0.4)
        else:
            new = list(w.chain)
            for _ in range(2 if kind == "two_blocks" else 1):
                u = dict(g.m.at(new[-1].hash)); txs = []
                for t in w.mem:
                    if M.acceptable(u, t) and r.random() < 0.6: M.apply_tx(u, t); txs.append(t)
                new.append(g.block(new[-1], txs=txs, ntx=r.choice([0, 2])))
        fired = threading.Event()
        def hook(node, method, params, seq):
            if method != "getrawmempool" or fired.is_set(): return None
            fired.set()
            st, val = node.answer(method, params)
            if kind == "evict_after_listing":
                node.mempool = []      # the listed transactions can no longer be had
            else: node.set_chain(new); # transactions listed in this reply are still supplied from the mempool
            node.gates["getrawmempool"] = 0     # the next cycle stays at its first request
            import json as J
            return ("raw", 200, J.dumps({"result": val, "error": None, "id": "indexer"}).encode())
        fresh = []
        if kind == "evict_after_listing":
            fresh = add_txs(w, 3); lst = list(w.mem)
        with w.node.lock: w.node.hook = hook; w.node.set_mempool(w.mem)
        if not w.node.wait(lambda: fired.is_set() and w.node.held("getrawmempool") > 0, 60, w.ix.alive):
            w.ix.sync(1)   # raises Died/Stuck if that is what happened
            raise Inconclusive("race not reached")
        w.node.hook = None
        if kind == "evict_after_listing":
            # those listed before are cached or refetched, the fresh ones could not be supplied
            gone = {t.txid for t in fresh}
            cands = [M.mempool_view(g.m.at(old_chain[-1].hash), lst, gone)[0], M.mempool_view(g.m.at(old_chain[-1].hash), [], ())[0], M.mempool_view(g.m.at(old_chain[-1].hash), old_mem, ())[0]]
            w.mem = []
        else:
            w.chain = new; w.max_tip = max(w.max_tip, len(new) - 1)
            cands = [M.mempool_view(g.m.at(c[-1].hash), old_mem)[0] for c in (new, old_chain)]
        addrs = g.query_addrs(); got = w.ix.utxos(addrs, 0)
        ds = [safe(P.compare_utxos, got, addrs, M.view(c)) for c in cands]
        if all(ds): raise V("right after a cycle with %s: the answer matches neither the new nor the old tip with the listed transactions: %s" % (kind, ds[0]), key="race")
        e.cov["race_" + kind] += 1; e.cov["race_new_tip" if not ds[0] else "race_old_tip"] += 1
        w.settle_mempool()
        with w.node.lock: push(w); w.node.ungate("getrawmempool")
        w.ix.sync(); w.check("after %s" % kind, balances=True); e.sig.append(kind)

def stepped(e):
    """The node answers one request at a time; blocks come and transactions are mined between any two of them, and the answers are looked at each time.
    A transaction that went from the mempool into a block is in one or the other at every moment, never in both."""
    r = e.r; w = World(e, conf=r.choice([1, 2, 3, 6]), ntx=1, extra=4, heavy=0.0, naddr=6); w.unavail_ids = set(); g = w.g; n = w.node; conf = w.conf
    add_txs(w, 4); push(w); w.ix.sync(); states = [(list(w.chain), list(w.mem))]; tips = [0]
    # tips: number of blocks found since the beginning, by state
    METHODS = ("getrawmempool", "getrawtransaction", "getblockhash", "getblock"); todo = r.choice([60, 100]); quiet = 0; cache = {}; lo = 0
    def done(): return sum(n.n_done.values())
    def cand(i, j):
        if (i, j) not in cache: cache[i, j] = M.view(M.mempool_view(g.m.at(states[i][0][-1].hash), states[j][1])[0])
        return cache[i, j]
    for m in METHODS: n.gate(m, 0)
    while todo > 0 or quiet < 25:
        if not n.wait(lambda: n.held() > 0, 60, w.ix.alive):
            n.ungate(); w.ix.sync(1); raise P.Stuck("no request to the node within 60 s", w.ix)
        addrs = g.query_addrs(); got = w.ix.utxos(addrs, 0)
        ids = [{t.txid for t in m} for _, m in states[lo:]]      # a later listing on an earlier tip only where nothing is missing from both
        ok = [(i, j) for i in range(len(states) - 1, lo - 1, -1) for j in range(len(states) - 1, lo - 1, -1) if j <= i or ids[i - lo] <= ids[j - lo]]
        fit = [x for x in ok if not safe(P.compare_utxos, got, addrs, cand(*x))]
        if not fit:
            d = safe(P.compare_utxos, got, addrs, cand(len(states) - 1, len(states) - 1))
            raise V("between two requests of a cycle (next: %s), after %d blocks: no tip shown so far with a mempool listed while it was the tip or before gives this answer; compared with the present ones: %s" % (n.waiting[0][1:3] if n.waiting else None, tips[-1], d), key="stepped")
        lo = min(min(x) for x in fit)      # neither the tip nor the listing goes back behind these
        if conf and r.random() < 0.5:
            k = r.randrange(1, conf + 1); x = w.ix.utxos(addrs, k)
            if all(safe(P.compare_utxos, x, addrs, M.view(g.m.at(states[i][0][-k].hash))) for i in range(lo, len(states))): raise V("between two requests of a cycle: the answer for %d confirmations is of an older tip than the one for 0 before" % k, key="stepped")
        e.cov["stepped_states"] += 1; e.cov["stepped_listing_older_than_tip"] += all(i != j for i, j in fit)
        if todo > 0 and r.random() < 0.2:
            with n.lock:
                x = r.random(); d = min(conf - 1, len(w.chain) - 1 - (w.max_tip - (conf - 1)))
                if x < 0.2 and d > 0:
                    new = w.branch(r.randrange(1, d + 1), r.choice([1, 2]), reuse=0.4); gone = [t for b in w.chain if b not in new for t in b.txs[1:]]
                    w.present(new); w.mem = gone + w.mem; w.settle_mempool(); push(w); states.append((list(w.chain), list(w.mem))); tips.append(tips[-1]); e.cov["stepped_reorgs"] += 1
                elif x < 0.7:
                    for _ in range(r.choice([1, 1, 2])):
                        u = dict(w.utxo()); txs = []
                        for t in w.mem:
                            if M.acceptable(u, t) and (not txs or r.random() < 0.6): M.apply_tx(u, t); txs.append(t)
                        if not txs: break
                        b = g.block(w.tip, txs=txs, ntx=r.choice([0, 0, 1])); w.chain.append(b); n.add_block(b); w.max_tip = max(w.max_tip, len(w.chain) - 1); w.settle_mempool(); push(w)
                        states.append((list(w.chain), list(w.mem))); tips.append(tips[-1] + 1); e.cov["stepped_mined"] += len(txs); e.cov["stepped_mined_before_" + (n.waiting[0][1] if n.waiting else "?")] += 1
                if r.random() < 0.7: add_txs(w, r.choice([1, 2])); push(w); states.append((list(w.chain), list(w.mem))); tips.append(tips[-1])
        todo -= 1; quiet = quiet + 1 if todo <= 0 else 0
        c = done(); m = n.waiting[0][1]; n.permit(m)
        n.wait(lambda: done() > c, 20, w.ix.alive)
    n.ungate(); w.ix.sync(); w.check("after stepping", ks=range(conf + 1)); e.sig.append(("stepped", len(states)))

def run():
    main("C02", scenario, required=("stepped_states", "stepped_mined_before_getrawmempool", "stepped_mined_before_getblockhash", "partly_equal_hashes", "twins_listed", "views_compared", "mempool_over_2500", "mempool_over_65536", "cycles_with_the_same_transactions", "applied", "skipped", "evicted", "replaced", "listed_conflict", "unavailable", "available_again", "mined_mempool_txs", "mined_conflict", "race_block_after_listing", "race_reorg_after_listing", "unconfirmed_chains"),
         rule="a scenario counts once per distinct configuration and sequence of mempool actions",
         assumptions=["the node lists parents before children"])
