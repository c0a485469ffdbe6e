from .common import *
from .c04 import tiny_chain
import re, struct, subprocess

def scenario(e):
    if e.idx == 4 or e.idx % 24 == 12: return many_batches(e)
    r = e.r; conf = r.choice([1, 2, 3, 6])
    g = G.Gen(r, naddr=r.choice([3, 8, 20]), heavy=r.choice([0.0, 0.03]), cov=e.cov, collide=0.3)
    chain = g.new_chain(4) if g.collide else [g.genesis()]
    n = max(conf + r.choice([1, 3, 10, 30, 60]), len(chain) + 1)
    shape = r.choice(["mixed", "first_heavy", "alternating", "chainspend"])
    for h in range(len(chain), n):
        if shape == "mixed": chain.append(g.block(chain[-1]))
        elif shape == "first_heavy": chain.append(g.block(chain[-1], ntx=120 if h % 9 == 1 else 0))       # early batches finish last
        elif shape == "alternating": chain.append(g.block(chain[-1], ntx=40 if h % 2 else 0))
        else:
            # everything a block creates is spent by the next one: every batch boundary carries spends
            u = g.m.at(chain[-1].hash); ks = [k for k in u if k[0] in {t.txid for t in chain[-1].txs}]
            chain.append(g.block(chain[-1], txs=[g.spend(u, ks)] if ks else [], ntx=2))
    blocks = os.path.join(e.dir, "blocks"); G.write_files(blocks, chain, r, r.choice([1, 3]))
    node = e.node(); node.set_chain(chain)
    addrs = g.query_addrs()
    cfgs = [(1, 1)] + [(r.choice([2, 2, 3, 4, 8, 16, 64]), r.choice([1, 1, 2, 3, 5, 10, n - conf + 1, n + 7, 100000, r.choice([10**10, 10**12, 2**63, 2**64 - 1])])) for _ in range(r.choice([3, 5]))]
    if e.idx % 6 == 1: cfgs.append((r.choice([2, 3, 8]), r.choice([10**12, 10**15, 2**62, 2**63, 2**64 - 1])))
    r.shuffle(cfgs)
    for i, (th, ba) in enumerate(cfgs):
        e.note("threads", th, "batch", ba, "blocks", n, shape); base = len(node.trace)
        ix = e.indexer("hooked", node, threads=th, batch=ba, confirmations=conf, interval=5, store=os.path.join(e.dir, "store%d" % i)).start().wait_ready()
        fh = first_height(node, base)
        if fh != n - conf + 1: raise V("THREADS=%d BATCH_SIZE=%d: index holds %s blocks, expected %d" % (th, ba, fh, n - conf + 1), key="length")
        views_ok(e, ix, g, chain, range(0, conf + 1), addrs, "THREADS=%d BATCH_SIZE=%d" % (th, ba), True, g.m.at(chain[-1].hash))
        e.cov["parallel_builds" if th > 1 else "sequential_builds"] += 1; e.cov["batches"] += (n - conf) // ba + 1; e.cov["builds_in_one_huge_batch"] += ba >= 10**10
        ix.kill()
        if r.random() < 0.3:   # the store written by this build
            ix = e.indexer("hooked", node, threads=1, batch=1, confirmations=conf, interval=5, store=os.path.join(e.dir, "store%d" % i), blocks="/nonexistent").start().wait_ready()
            views_ok(e, ix, g, chain, range(0, conf + 1), addrs, "store written with THREADS=%d BATCH_SIZE=%d" % (th, ba), False, g.m.at(chain[-1].hash)); ix.kill(); e.cov["stores_reread"] += 1
    e.sig.append((conf, n, shape, tuple(cfgs))); e.samples.append(dict(blocks=n, shape=shape, configurations=cfgs))

def many_batches(e):
    """More batches than 8 and than 16 bits count, of which one early one takes long."""
    r = e.r; g = G.Gen(r, naddr=6, cov=e.cov); conf = r.choice([1, 3]); n = r.choice([400, 900, 66500]) if e.idx % 8 else 66500
    ch = tiny_chain(g, 2 + r.randrange(3)); big = C.Tx([(C.ZERO, 0xFFFFFFFF, struct.pack("<IQ", len(ch), r.getrandbits(60)), 0)], [(1, b"\x51")] * r.choice([60000, 250000]) + [(77, C.p2pkh_script(g.hs[0]))])
    ch.append(C.Block(ch[-1].hash, [big], len(ch), nonce=r.getrandbits(32))); tiny_chain(g, n, ch); u = {}
    for b in ch: M.apply_block(u, b)
    G.write_files(os.path.join(e.dir, "blocks"), ch, r, 2); node = e.node(); node.set_chain(ch); th = r.choice([2, 3, 8]); base = len(node.trace)
    e.note("threads", th, "batch 1 blocks", len(ch))
    ix = e.indexer("hooked", node, threads=th, batch=1, confirmations=conf, interval=5).start().wait_ready(150)
    if first_height(node, base) != len(ch) - conf + 1: raise V("THREADS=%d BATCH_SIZE=1: index holds %s blocks, expected %d" % (th, first_height(node, base), len(ch) - conf + 1), key="length")
    d = safe(P.compare_utxos, ix.utxos(g.addrs, 1), g.addrs, M.view(u))
    if d: raise V("%d batches, one of them slow: %s" % (len(ch) - conf + 1, d), key="many_batches")
    e.cov["parallel_builds"] += 1; e.cov["batches"] += len(ch); e.cov["batches_over_16_bits"] += len(ch) > 66000; e.sig.append(("many", len(ch), th))

def pools(e):
    """The worker pools and the batcher by themselves, far more schedules than builds of an index give."""
    try: x = subprocess.run([e.bins["h:pool"], str(e.r.getrandbits(31)), *e.r.choice([("200", "8"), ("200", "60"), ("200", "400"), ("80", "1500"), ("4", "150000")])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=dict(PATH="/usr/bin:/bin", RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired as t: raise P.Stuck("the worker pool did not finish within %d s, arguments %s" % (t.timeout, t.cmd[1:]))
    out = x.stdout.decode()
    if x.returncode: raise V("worker pools: status %s: %s %s" % (x.returncode, out[-400:], x.stderr.decode(errors="replace")[-400:]), key="pool")
    m = re.search(r"items=(\d+) out_of_order=(\d+)", out); e.cov["pool_rounds"] += int(x.args[2]); e.cov["pool_items"] += int(m.group(1)); e.cov["pool_items_out_of_order"] += int(m.group(2)); e.sig.append(out)

def run():
    main("C05", lambda e: pools(e) if e.idx % 4 == 3 and "h:pool" in e.bins else scenario(e), need_bins=("hooked", "h:pool?"), required=("partly_equal_hashes", "views_compared", "parallel_builds", "sequential_builds", "stores_reread", "batches_over_16_bits", "builds_in_one_huge_batch"),
         rule="a scenario counts once per distinct (chain shape, set of THREADS/BATCH_SIZE combinations)")
