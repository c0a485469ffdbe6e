from .common import *

MAX = 2_100_000_000_000_000

def amounts(r, n):
    out = [0, 1, 2, 9, 10, 99, 100, 545, 546, 10**8 - 1, 10**8, 10**8 + 1, MAX, MAX - 1, MAX - 2, MAX // 2, MAX // 3, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40, 2**50, 2**50 + 1, 2**50 - 1, 5 * 10**9, 123456789, 1234567890123456, 2099999997690000, 99999999, 199999999, 29, 57, 58, 113, 114, 115, 1001, 4503599627370495 % MAX, 30000000, 110000000]
    for p in range(16):
        for d in (-1, 0, 1, 3, 7): out.append(max(0, min(MAX, 10**p + d))); out.append(min(MAX, max(0, r.randrange(1, 22) * 10**p + d)))
    for p in range(51): out.append(min(MAX, 2**p + r.choice([-1, 0, 1])))
    while len(out) < n: out.append(int(r.choice([r.randrange(MAX + 1), r.randrange(10**r.randrange(1, 16)), r.randrange(2**r.randrange(1, 51)), MAX - r.randrange(10**6), r.randrange(21 * 10**6 + 1) * 10**8 - r.choice([0, 1])])) % (MAX + 1))
    r.shuffle(out); return out[:n]

def mk(g, chain, payments):
    """One block whose coinbase pays the list of (hash, version, value)."""
    g.n += 1
    cb = C.Tx([(C.ZERO, 0xFFFFFFFF, g.n.to_bytes(8, "little"), 0)], [(v, C.p2pkh_script(h) if ver == 0 else C.p2sh_script(h)) for h, ver, v in payments])
    b = C.Block(chain[-1].hash, [cb], len(chain), nonce=g.n); g.m.add(b); return b

def scenario(e):
    r = e.r; g = G.Gen(r, naddr=6); conf = r.choice([1, 2, 4]); n = 400
    chain = [g.genesis()]; pays = []
    for v in amounts(r, n): pays.append((r.randbytes(20), r.choice([0, 5]), v))
    sums = []
    for _ in range(60):     # many outputs on one address, the total stays below the supply
        h, ver = r.randbytes(20), r.choice([0, 5]); m = r.choice([2, 3, 10, 100]); left = MAX; kind = r.randrange(4); tot = 0
        for i in range(m):
            v = {0: lambda: r.randrange(left // (m - i) + 1), 1: lambda: r.choice([1, 3, 10**7 + 1, 10**8 // 3]), 2: lambda: left if i == m - 1 else left // (m - i), 3: lambda: min(left, r.choice([2**32 - 1, 2**32, 2**49]))}[kind]()
            v = min(v, left); left -= v; tot += v; sums.append((h, ver, v))
        e.cov["sums"] += 1; e.cov["sum_full_supply"] += tot == MAX
    allp = pays + sums; r.shuffle(allp); nb = r.choice([3, 5, 8]) + conf; parts = [allp[i::nb] for i in range(nb)]
    for p in parts: chain.append(mk(g, chain, p))
    node = e.node(); nfile = r.choice([len(chain), max(conf, len(chain) // 2)])
    node.set_chain(chain); G.write_files(os.path.join(e.dir, "blocks"), chain[:nfile])
    # part of the amounts only in the mempool
    u = g.m.at(chain[-1].hash); src = [k for k in u if u[k][0]]; r.shuffle(src); memh = r.randbytes(20)
    mem = [C.Tx([(k[0], k[1], b"", 0)], [(u[k][1], C.p2pkh_script(r.randbytes(20))) if r.random() < 0.7 else (min(u[k][1], 10**9), C.p2pkh_script(memh))]) for k in src[:30]]
    node.set_mempool(mem); pool = M.mempool_view(u, mem)[0]
    ix = e.indexer("hooked", node, confirmations=conf, interval=20, threads=r.choice([1, 2]), batch=2).start().wait_ready()
    for rnd in range(2):
        for k, st in [(0, pool)] + [(k, g.m.at(chain[-k].hash)) for k in r.sample(range(1, conf + 1), min(2, conf))]:
            want = M.view(st); ads = sorted(set(M.view(u)) | set(M.view(pool)))
            for f, q in ((P.compare_utxos, ix.utxos), (P.compare_balances, ix.balances)):
                d = safe(f, q(ads, k), ads, want)
                if d: raise V("confirmations=%d%s: %s" % (k, " after restart" if rnd else "", d), key="amount")
            e.cov["amounts_compared"] += sum(len(x) for x in want.values()); e.cov["balances_compared"] += len(ads)
            for a in r.sample(ads, 40):
                st1, h1, b1 = ix.call("GET", "/addresses/%s/balance?confirmations=%d" % (a, k)); st2, h2, b2 = ix.call("GET", "/addresses/%s/utxos?confirmations=%d" % (a, k))
                d = safe(lambda x, y: None if P.sat(x) == sum(want.get(a, {}).values()) else "%s: single balance %s, expected %d satoshis" % (a, x, sum(want.get(a, {}).values())), P.parse(b1), 0) or safe(P.compare_utxos, [dict(address=a, utxos=P.parse(b2))], [a], want)
                if d: raise V("confirmations=%d: %s" % (k, d), key="amount")
                e.cov["single_amounts"] += 2
        if rnd == 0:
            ix.kill(); ix = e.indexer("hooked", node, confirmations=conf, interval=20, blocks="/nonexistent").start().wait_ready(); e.cov["restarts"] += 1
    e.sig.append((conf, nb, allp[0][2], allp[1][2])); e.samples.append(dict(amounts=[p[2] for p in pays[:6]], conf=conf))

def run():
    main("C13", scenario, required=("amounts_compared", "sums", "sum_full_supply", "restarts", "single_amounts"), rule="a scenario counts once per distinct configuration and first two amounts",
         assumptions=["numbers in the JSON text are read as decimals, exactly"])
