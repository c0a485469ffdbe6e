from .common import *

def giant(e):
    """Transactions around the 16-bit boundary of output indexes, spent again later."""
    r = e.r; w = World(e, conf=r.choice([1, 2, 3]), extra=3, naddr=6, start=False)
    g = w.g
    one = r.random() < 0.5      # more outputs than 16 bits count under a single address
    cb = g.coinbase(len(w.chain), nout=66000, value=10**13, scripts=[C.p2pkh_script(g.hs[0])] * 66000 if one else None); e.cov["address_with_66000_outputs"] += one
    b = g.block(w.tip, coinbase=cb, ntx=0); w.chain.append(b); w.node.add_block(b)
    keys = [(cb.txid, i) for i in (0, 255, 256, 65534, 65535, 65536, 65537, 65999) if (cb.txid, i) in g.m.at(b.hash)]
    w.start(); w.check("block with 66000 outputs", ks=[0, 1, w.conf], balances=True)
    b2 = g.block(w.tip, txs=[g.spend(g.m.at(b.hash), keys)], ntx=0); w.chain.append(b2); w.node.add_block(b2)
    allk = [k for k in g.m.at(b2.hash) if k[0] == cb.txid]
    r.shuffle(allk); big = g.spend(g.m.at(b2.hash), allk[:66000 - 400 if len(allk) > 65600 else len(allk) // 2])
    b3 = g.block(w.tip, txs=[big], ntx=1); w.chain.append(b3); w.node.add_block(b3)
    w.ix.sync(); w.check("after spending across the 16-bit boundary", ks=list(range(0, w.conf + 1)), balances=True)
    for _ in range(w.conf + 1): w.add(1)
    w.ix.sync(); w.check("after promotion"); w.restart(); w.check("after restart")
    e.cov["giant_tx"] += 1

def marathon(e):
    """Hundreds of blocks arriving one at a time in one run, with a long window of blocks that can still be replaced in some runs."""
    r = e.r; n = 600 if e.tier == "quick" else r.choice([1200, 2500])
    w = World(e, conf=r.choice([1, 3, 30, 100]), extra=4, naddr=5, heavy=0.0, ntx=1, interval=0)
    w.check("after start", ks=[0, 1, w.conf])
    for i in range(n):
        w.add(1, ntx=r.choice([0, 1, 1, 2])); w.ix.sync(1)
        if i % 16 == 0: w.ix.sync(); w.check("%d blocks after start" % (i + 1), ks={0, 1, r.randrange(w.conf + 1), w.conf}, balances=i % 64 == 0)
    w.ix.sync(); w.check("%d blocks after start" % n, ks={0, 1, w.conf}, balances=True); w.ix.sync(3); w.restart(); w.check("restart", ks={0, 1, w.conf // 2, w.conf})
    e.cov["live_blocks_in_one_run_over_256"] += n > 256

def scenario(e):
    r = e.r
    if e.idx == 6 or (e.tier == "thorough" and e.idx % 60 == 46): return marathon(e)
    if e.idx == 5 or (e.tier == "thorough" and e.idx % 60 == 45): return giant(e)
    w = World(e, heavy=r.choice([0.0, 0.03, 0.1]), naddr=r.choice([2, 6, 16, 40]), delays=r.choice([None, None, (30, 1)]))
    w.check("after start", balances=True); e.cov["starts"] += 1
    for step in range(r.choice([3, 6, 10])):
        n = r.choice([1, 1, 1, 1, 2, 3, w.conf, w.conf + 1, w.conf + 3])
        if r.random() < 0.3:   # a batch presented at once
            ch = w.g.extend(list(w.chain), n); w.present(ch); e.sig.append(("batch", n)); e.cov["batch_arrivals"] += 1
        else: w.add(n); e.cov["single_arrivals"] += n
        w.ix.sync(); w.check("after %d more blocks" % n, balances=step % 3 == 0)
        e.cov["promoted_blocks"] += n
    e.samples.append(dict(conf=w.conf, height=len(w.chain) - 1, threads=w.threads, addresses=len(w.g.addrs)))

def run():
    main("C01", scenario, required=("partly_equal_hashes", "views_compared", "spend_same_block", "spend_whole_address", "spend_no_address", "promoted_blocks", "giant_tx", "live_blocks_in_one_run_over_256", "tx_many_inputs", "tx_many_outputs", "script_none", "script_opreturn"),
         rule="a scenario counts once per distinct (CONFIRMATIONS, chain length, file split, THREADS, BATCH_SIZE, arrival history)",
         assumptions=["the reference replay in lib/bi/model.py, written from the protocol definition", "mock node behaves like bitcoind for the four calls used"])
