from .common import *
import json, struct, time as T

M_ADDR = 12

class Markers:
    """Blocks whose coinbase pays every watched address once; the previous block's payments are spent. Each address then holds exactly
    one output whose transaction id, and whose value, name the block that state belongs to."""
    def __init__(self, r):
        self.r = r; self.hs = [r.randbytes(20) for _ in range(M_ADDR)]
        self.addrs = [C.p2pkh_addr(h) if i % 2 else C.p2sh_addr(h) for i, h in enumerate(self.hs)]
        self.scripts = [C.p2pkh_script(h) if i % 2 else C.p2sh_script(h) for i, h in enumerate(self.hs)]
        self.seq = 0; self.by_tx = {}; self.by_val = {}; self.junk = C.p2pkh_script(r.randbytes(20))
    def genesis(self):
        cb = C.Tx([(C.ZERO, 0xFFFFFFFF, b"g" + self.r.randbytes(6), 0)], [(50, b"\x51")]); return C.Block(C.ZERO, [cb], 0)
    def block(self, prev):
        self.seq += 1; v = 100000 + self.seq; order = list(range(M_ADDR)); self.r.shuffle(order)
        cb = C.Tx([(C.ZERO, 0xFFFFFFFF, struct.pack("<II", prev.height + 1, self.seq), 0)], [(v, self.scripts[i]) for i in order])
        txs = [cb]
        if prev.height > 0:
            p = prev.txs[0]; txs.append(C.Tx([(p.txid, i, b"", 0) for i in range(M_ADDR)], [(sum(o[0] for o in p.outs), self.junk)]))
        b = C.Block(prev.hash, txs, prev.height + 1, nonce=self.seq); self.by_tx[cb.id] = b; self.by_val[v] = b
        return b

def stepped(e):
    """The node answers one request at a time and changes between any two of them; each time, all depths must show one presented chain, and never an older one."""
    r = e.r; conf = r.choice([1, 2, 3, 4, 6]); mk = Markers(r); chain = [mk.genesis()]
    for _ in range(conf + r.choice([1, 2, 5])): chain.append(mk.block(chain[-1]))
    G.write_files(os.path.join(e.dir, "blocks"), chain); node = e.node(); node.trace_on = False; node.set_chain(chain); states = [list(chain)]; floor = 0
    slow = r.random() < 0.4; kw = dict(preload=e.bins["shim"], shim=dict(SHIM_PREFIX=e.dir + "/store", SHIM_SLOW_US=str(r.choice([2000, 20000])))) if slow else {}
    ix = e.indexer("hooked", node, confirmations=conf, interval=r.choice([0, 1]), **kw).start().wait_ready(); h = ix.http(60); body = json.dumps(mk.addrs).encode()
    def done(): return sum(node.n_done.values())
    for m in ("getrawmempool", "getrawtransaction", "getblockhash", "getblock"): node.gate(m, 0)
    max_tip = len(chain) - 1; todo = r.choice([80, 150]); quiet = 0
    while todo > 0 or quiet < 25:
        if not node.wait(lambda: node.held() > 0, 60, ix.alive): node.ungate(); ix.sync(1); raise P.Stuck("no request to the node within 60 s", ix)
        shown = []
        for k in r.sample(range(conf + 1), conf + 1):
            kind = r.choice([4, 5]); st, _, b = h.post("/addresses/%s?confirmations=%d" % (("utxos", "balance")[kind - 4], k), body)
            if st != 200: raise V("status %d %r" % (st, b[:200]), key="status")
            v = version(mk, kind, b); fit = [i for i in range(len(states)) if states[i][-max(k, 1)].hash == v]; shown.append((k, fit[-3:]))
            fit = [i for i in fit if i >= floor]
            if not fit: raise V("between two requests of an update cycle (next: %s): after an answer of chain %d (of %d presented so far) %s; chains by confirmations, in the order asked: %s" % (node.waiting[0][1:3] if node.waiting else None, floor, len(states), "one of chain %s was given" % shown[-1][1] if shown[-1][1] else "one was given of a state no presented chain had at that depth", shown), key="stepped")
            floor = fit[0]
        e.cov["stepped_states"] += 1
        if todo > 0 and r.random() < 0.2:
            ht = len(chain) - 1; fl = max(1, max_tip - conf + 1)
            if r.random() < 0.4 and conf > 1 and ht - fl >= 1:
                d = r.randrange(1, ht - fl + 1); new = chain[:ht + 1 - d]
                while len(new) <= len(chain): new.append(mk.block(new[-1]))
                if r.random() < 0.3: new.append(mk.block(new[-1]))
                chain = new; e.cov["stepped_reorgs"] += 1
            else:
                for _ in range(r.choice([1, 1, 1, 2, conf + 2])): chain = chain + [mk.block(chain[-1])]
            max_tip = max(max_tip, len(chain) - 1); states.append(list(chain))
            with node.lock: node.set_chain(chain); e.cov["stepped_change_before_" + (node.waiting[0][1] if node.waiting else "?")] += 1
        todo -= 1; quiet = quiet + 1 if todo <= 0 else 0
        c = done(); node.permit(node.waiting[0][1]); node.wait(lambda: done() > c, 20, ix.alive)
    h.close(); node.ungate(); ix.sync(); h = ix.http(60)
    for k in range(conf + 1):
        if version(mk, 4, h.post("/addresses/utxos?confirmations=%d" % k, body)[2]) != chain[-max(k, 1)].hash: raise V("after synchronisation confirmations=%d shows an older state" % k, key="stale")
    h.close(); e.sig.append(("stepped", conf, len(states)))

def scenario(e):
    if e.idx % 4 == 2: return stepped(e)
    r = e.r; conf = r.choice([1, 2, 2, 3, 3, 6]); mk = Markers(r)
    chain = [mk.genesis()]
    for _ in range(conf + r.choice([1, 2, 5])): chain.append(mk.block(chain[-1]))
    G.write_files(os.path.join(e.dir, "blocks"), chain)
    node = e.node(); node.trace_on = False; node.set_chain(chain)
    states = [list(chain)]; lock = threading.Lock()
    delays = r.choice([(0, 0), (30, 1), (60, 2), (60, 5)])
    kw = dict(env=dict(VERIF_DELAY_PERCENT=str(delays[0]), VERIF_DELAY_MS=str(delays[1]), VERIF_DELAY_SEED=str(r.getrandbits(30)))) if delays[0] else {}
    slow = r.random() < 0.3
    if slow: kw.update(preload=e.bins["shim"], shim=dict(SHIM_PREFIX=e.dir + "/store", SHIM_SLOW_US=str(r.choice([2000, 20000]))))
    ix = e.indexer("hooked", node, confirmations=conf, interval=r.choice([0, 0, 1, 2]), **kw).start().wait_ready()
    stop = threading.Event(); hist = []; errs = []
    def client(seed):
        rr = random.Random(seed); h = ix.http(60); mine = []
        try:
            while not stop.is_set():
                k = rr.randrange(1, conf + 1); kind = rr.randrange(6); n = rr.choice([2, 3, M_ADDR, M_ADDR, 40, 200]); ads = [rr.choice(mk.addrs) for _ in range(n)] if n != M_ADDR else mk.addrs
                if kind in (0, 1):
                    p = "/addresses/%s/%s?confirmations=%d" % (rr.choice(mk.addrs), ("utxos", "balance")[kind], k); t0 = T.monotonic_ns(); st, _, b = h.get(p)
                elif kind in (2, 3):
                    p = "/addresses/%s?addresses=%s&confirmations=%d" % (("utxos", "balance")[kind - 2], ",".join(ads), k); t0 = T.monotonic_ns(); st, _, b = h.get(p)
                else:
                    body = json.dumps(ads).encode(); t0 = T.monotonic_ns(); st, _, b = h.post("/addresses/%s?confirmations=%d" % (("utxos", "balance")[kind - 4], k), body)
                t1 = T.monotonic_ns(); mine.append((t0, t1, k, kind, st, b))
                if rr.random() < 0.1: T.sleep(0.001)
        except Exception as x: errs.append(x)
        with lock: hist.extend(mine)
    ths = [threading.Thread(target=client, args=(r.getrandbits(60),), daemon=True) for _ in range(r.choice([2, 3, 4]))]
    for t in ths: t.start()
    branches = {}; max_tip = len(chain) - 1; nsteps = r.choice([15, 30, 50])
    for step in range(nsteps):
        x = r.random(); h = len(chain) - 1; fl = max(1, max_tip - conf + 1)
        if x < 0.25 and conf > 1 and h - fl >= 1:
            d = r.randrange(1, h - fl + 1); new = chain[:h + 1 - d]
            while len(new) <= len(chain): new.append(mk.block(new[-1]))
            chain = new; e.cov["reorgs"] += 1
        else:
            chain = chain + [mk.block(chain[-1])]; e.cov["blocks_presented"] += 1
            if x > 0.9: chain = chain + [mk.block(chain[-1])]
        max_tip = max(max_tip, len(chain) - 1)
        states.append(list(chain)); node.set_chain(chain)
        y = r.random()
        if y < 0.5: ix.sync(1)
        elif y < 0.8: T.sleep(r.choice([0.001, 0.004, 0.01]))
    ix.sync(); final0 = T.monotonic_ns(); T.sleep(0.02)
    stop.set()
    for t in ths: t.join(60)
    if any(t.is_alive() for t in ths): raise P.Stuck("a client got no reply", ix)
    if errs:
        T.sleep(0.1)
        if not ix.alive(): raise P.Died("process exited with %s: %s" % (ix.p.returncode, ix.stderr()))
        if isinstance(errs[0], TimeoutError): raise P.Stuck("a client got no reply", ix)
        raise V("a request failed while the chain advanced: %r" % errs[0], key="client")
    check(e, mk, states, hist, conf, final0)
    e.cov["histories"] += 1; e.cov["delays_%d" % delays[0]] += 1; e.cov["slow_store_writes"] += slow
    e.sig.append((conf, nsteps, delays, len(hist))); e.samples.append(dict(conf=conf, steps=nsteps, responses=len(hist), delays=delays))

def version(mk, kind, body):
    """The block the response reflects; raises V when it mixes blocks."""
    x = P.parse(body); seen = set()
    def utxos(a, l):
        if len(l) != 1: raise V("%s lists %d outputs; every state has exactly one: %s" % (a, len(l), [u["hash"][:12] for u in l]), key="mixed")
        b = mk.by_tx.get(l[0]["hash"])
        if b is None: raise V("unknown transaction %s" % l[0]["hash"], key="mixed")
        if mk.by_val.get(P.sat(l[0]["value"])) is not b: raise V("output of block %d with the value of another" % b.height, key="mixed")
        seen.add(b.hash)
    def bal(a, v):
        b = mk.by_val.get(P.sat(v))
        if b is None: raise V("%s has balance %s, which no chain state has" % (a, v), key="mixed")
        seen.add(b.hash)
    if kind == 0: utxos("the address", x)
    elif kind == 1: bal("the address", x)
    else:
        for en in x: utxos(en["address"], en["utxos"]) if kind in (2, 4) else bal(en["address"], en["balance"])
    if len(seen) != 1: raise V("one response mixes %d chain states" % len(seen), key="mixed")
    return seen.pop()

def check(e, mk, states, hist, conf, final0):
    idx = {}
    for i, s in enumerate(states):
        for k in range(1, conf + 1): idx.setdefault((k, s[-k].hash), []).append(i)
    evs = []
    for j, (t0, t1, k, kind, st, b) in enumerate(hist):
        if st != 200: raise V("status %d %r" % (st, b[:200]), key="status")
        try: v = version(mk, kind, b)
        except (KeyError, TypeError, ValueError, IndexError, AttributeError) as x: raise V("malformed response %r: %s" % (x, b[:200]), key="malformed")
        c = idx.get((k, v))
        if not c: raise V("confirmations=%d reflects block %s, which never had %d confirmations" % (k, v[::-1].hex()[:16], k), key="never")
        evs.append((t0, t1, k, kind, c, j))
    import bisect, heapq
    # real-time order: the lower bound of a request is the largest state assigned to a response received before it was sent
    starts = sorted(evs); done = []; L = 0; assigned = set()
    for t0, t1, k, kind, c, j in starts:
        while done and done[0][0] < t0: L = max(L, heapq.heappop(done)[1])
        p = bisect.bisect_left(c, L)
        if p == len(c): raise V("a request (kind %d, confirmations=%d) sent after a response of state %d was received reflects only states %s" % (kind, k, L, c[-3:]), dict(bound=L, candidates=c), key="backwards")
        if t0 > final0 and (len(states) - 1) not in c: raise V("after synchronisation confirmations=%d still reflects state %s, the last is %d" % (k, c[-1], len(states) - 1), key="stale")
        heapq.heappush(done, (t1, c[p])); assigned.add((k, c[p])); e.cov["kind_%d" % kind] += 1
    e.cov["responses_checked"] += len(evs); e.cov["distinct_states_seen"] += len(assigned)
    # overlap: responses whose interval saw another client's response of a different state complete
    e.cov["concurrent_pairs"] += sum(1 for a, b in zip(starts, starts[1:]) if b[0] < a[1])

def run():
    main("C08", scenario, need_bins=("hooked", "shim"), required=("stepped_states", "stepped_reorgs", "stepped_change_before_getblockhash", "stepped_change_before_getblock", "stepped_change_before_getrawmempool", "responses_checked", "reorgs", "concurrent_pairs", "kind_0", "kind_1", "kind_2", "kind_3", "kind_4", "kind_5", "slow_store_writes", "delays_60"), min_ok=6,
         rule="a history counts once per distinct (CONFIRMATIONS, steps, delay plan, number of responses)",
         assumptions=["one monotonic clock in the client process orders requests and responses"])
