from .common import *
from .c04 import tiny_chain
import struct

def giant(e):
    """Output indexes beyond 16 bits, long header lists and large values through the store file."""
    r = e.r; w = World(e, conf=r.choice([1, 2, 3]), extra=3, naddr=6, start=False); g = w.g
    g.extend(w.chain, r.choice([0, 300, 1100]), ntx=0)
    cb = g.coinbase(len(w.chain), nout=66000, value=10**13); w.chain.append(g.block(w.tip, coinbase=cb, ntx=0))
    g.extend(w.chain, w.conf, ntx=1); w.node.set_chain(w.chain); w.max_tip = len(w.chain) - 1
    G.write_files(os.path.join(e.dir, "blocks"), w.chain, r, 2)
    w.start(); w.check("with 66000 outputs", ks=[1, w.conf]); w.restart(); w.check("restart with 66000 outputs", ks=[1, w.conf], balances=True)
    u = w.utxo(); keys = [k for k in u if k[0] == cb.txid and k[1] > 65000]; r.shuffle(keys)
    w.add(1, txs=[g.spend(u, keys[:200])]); w.add(w.conf, ntx=1); w.ix.sync(); w.check("after spending some", ks=[1, w.conf])
    w.ix.sync(3); w.restart(); w.check("second restart", ks=[1, w.conf], balances=True); e.cov["giant_stores"] += 1

def tall(e):
    """Heights around 2^16: more headers than 16 bits count, in the files, over updates and through the store."""
    r = e.r; g = G.Gen(r, naddr=8, cov=e.cov); n = 65536 + r.choice([-4, -1, 2, 300]); conf = r.choice([1, 3, 6]); ch = tiny_chain(g, n); e.note("tall", n, conf); u = {}
    for b in ch: M.apply_block(u, b)
    node = e.node(); node.set_chain(ch); G.write_files(os.path.join(e.dir, "blocks"), ch, r, 3)
    ix = e.indexer("hooked", node, threads=r.choice([1, 4]), batch=1000, confirmations=conf, interval=5); base = len(node.trace); ix.start().wait_ready(120)
    def look(what, promoted):
        if first_height(node, base) not in promoted: raise V("%s: the first height asked of the node is %s, expected %s" % (what, first_height(node, base), promoted), key="height")
        d = safe(P.compare_utxos, ix.utxos(g.addrs, 1), g.addrs, M.view(u))
        if d: raise V("%s: %s" % (what, d), key="tall")
    look("%d blocks" % n, [n - conf + 1]); shutil.rmtree(os.path.join(e.dir, "blocks"))
    for i in range(2):
        ix.sync(2); ix.kill(); base = len(node.trace); ix.start().wait_ready(120); look("restart %d with %d blocks" % (i, len(ch)), range(n - conf + 1, len(ch) - conf + 2))
        for j in range(r.choice([5, 9])):
            outs = [(r.randrange(1, 10**9), C.p2pkh_script(r.choice(g.hs)))]
            b = C.Block(ch[-1].hash, [C.Tx([(C.ZERO, 0xFFFFFFFF, struct.pack("<IQ", len(ch), r.getrandbits(60)), 0)], outs)], len(ch), nonce=r.getrandbits(32)); ch.append(b); M.apply_block(u, b); node.add_block(b); ix.sync(1)
        ix.sync(3); look("running at %d blocks" % len(ch), range(n - conf + 1, len(ch) - conf + 2))
    ix.sync(3); ix.kill(); base = len(node.trace); ix.start().wait_ready(120); look("last restart with %d blocks" % len(ch), range(n - conf + 1, len(ch) - conf + 2))
    e.cov["heights_over_16_bits"] += len(ch) > 65536; e.sig.append(("tall", n, conf))

def behind(e):
    """Stopped for a long time: thousands of blocks to catch up on."""
    r = e.r; conf = r.choice([1, 3, 6, 50]); w = World(e, conf=conf, extra=r.choice([0, 5]), heavy=0.0, naddr=6, ntx=1, interval=1)
    w.check("start", ks=[0, 1, conf]); w.ix.kill(); n = r.choice([4200, 5500]) if e.tier == "quick" else r.choice([9000, 12000])
    if conf > 1: w.present(w.branch(r.randrange(1, conf), 1))
    for _ in range(n):
        w.chain.append(w.g.block(w.tip, ntx=int(r.random() < 0.1)))
        if len(w.chain) > 300: w.g.m.drop(w.chain[-300].hash)
    w.node.set_chain(w.chain); w.max_tip = len(w.chain) - 1; w.mem = w.g.mempool_txs(dict(w.utxo()), 3); w.node.set_mempool(w.mem)
    w.start(wait=False); w.ix.wait_ready(240); w.check("%d blocks behind" % n, ks={0, 1, min(2, conf), conf}, balances=True); w.add(2); w.ix.sync(3); w.check("2 more", ks={0, 1, conf}); w.restart(); w.check("restart", ks={0, 1, conf})
    e.cov["caught_up_on_thousands"] += 1; e.sig.append(("behind", n, conf)); e.cov["restarts"] += 2

def scenario(e):
    r = e.r
    if e.idx == 4 or (e.tier == "thorough" and e.idx % 60 == 4): return behind(e)
    if e.idx == 5 or (e.tier == "thorough" and e.idx % 60 == 25): return tall(e)
    if e.idx == 6 or (e.tier == "thorough" and e.idx % 60 == 46): return giant(e)
    w = World(e, heavy=r.choice([0.0, 0.03]), naddr=r.choice([3, 8, 20]), delays=r.choice([None, None, (20, 1)]), conf=r.choice([1, 2, 3, 6, 7]))
    # an uninterrupted indexer beside it, on the same node
    node2 = e.node(); node2.set_chain(w.chain)
    ref = e.indexer("hooked", node2, store=os.path.join(e.dir, "ref.dat"), **dict(w.kw)).start().wait_ready() if r.random() < 0.25 else None
    first = True
    for step in range(r.choice([3, 5, 8])):
        act = r.choice(["advance", "advance", "advance", "reorg", "none", "mempool", "spend_none"])
        n0 = len(w.chain); running = r.random() < 0.5
        if not running: w.ix.kill(r.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
        d = 0
        if act == "advance": w.add(r.choice([1, 1, 2, w.conf, w.conf + 1, w.conf + 9]))
        elif act == "reorg" and w.conf > 1:
            lo = max(0, w.max_tip - w.conf + 1); d = len(w.chain) - 1 - lo
            if d >= 1:
                d = r.randrange(1, d + 1); new = w.branch(d, r.choice([1, 2, w.conf + 2]))
                w.present(new); e.cov["reorg_while_down" if not running else "reorg_while_up"] += 1
        elif act == "mempool": w.mem = w.g.mempool_txs(dict(w.utxo()), r.choice([0, 3])); 
        elif act == "spend_none":   # outputs without an address survive the round trip and get spent
            u = w.utxo(); ks = [k for k in u if u[k][0] is None]
            if ks: r.shuffle(ks); w.add(1, txs=[w.g.spend(u, ks[:5])]); e.cov["no_address_spent_after_restart"] += 1
        w.settle_mempool(); w.node.set_mempool(w.mem)
        if running:
            k = r.random()
            if k < 0.3: time.sleep(r.choice([0, 0.001, 0.005, 0.02]))   # killed somewhere in the middle of catching up (a store write included: the file must survive that too)
            else: w.ix.sync()
            w.ix.kill(r.choice([signal.SIGKILL, signal.SIGTERM])); e.cov["killed_running" if k < 0.3 else "killed_synchronised"] += 1
        w.start() if not first else w.restart(); first = False; e.cov["restarts"] += 1
        th = first_height(w.node, w.base)
        w.check("restart %d after %s" % (step, act), balances=True)
        if ref is not None:
            node2.set_chain(w.chain); node2.set_mempool(w.mem); ref.sync(); addrs = w.g.query_addrs()
            for k in w.ks():
                a, b = w.ix.utxos(addrs, k), ref.utxos(addrs, k)
                f = lambda x: [(i["address"], sorted((u["hash"], int(u["vout"]), str(u["value"])) for u in i["utxos"])) for i in x]
                if f(a) != f(b): raise V("restarted and uninterrupted indexer differ at confirmations=%d" % k, key="differential")
            e.cov["compared_with_uninterrupted"] += 1
        e.sig.append((act, running, d)); e.cov["stored_outputs"] += len(w.utxo())
        if r.random() < 0.4: w.add(1); w.ix.sync(); w.check("one block after restart %d" % step)
    e.samples.append(dict(conf=w.conf, steps=[s for s in e.sig if isinstance(s, tuple) and len(s) == 3]))

def run():
    main("C06", scenario, required=("partly_equal_hashes", "views_compared", "giant_stores", "heights_over_16_bits", "caught_up_on_thousands", "restarts", "reorg_while_down", "killed_running", "no_address_spent_after_restart", "compared_with_uninterrupted"),
         rule="a scenario counts once per distinct configuration and history of stops, advances and reorganisations")
