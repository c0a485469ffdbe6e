from .common import *
import json

def norm(l): return sorted((u["hash"], int(u["vout"]), str(u["value"])) for u in l)

def get(e, w, path, body=None):
    st, h, b = w.ix.call("GET" if body is None else "POST", path, body)
    if st != 200: raise V("%s answered %d %r" % (path[:150], st, b[:150]), key="status")
    if "json" not in h.get("content-type", ""): raise V("%s has content type %r" % (path[:100], h.get("content-type")), key="ctype")
    return P.parse(b)

def agree(e, w, addrs, k):
    r = e.r; q = "confirmations=%d" % k if k is not None else ""
    def u(p, qs=""): return p + ("?" if qs or q else "") + "&".join(r.sample([x for x in (qs, q) if x], len([x for x in (qs, q) if x])))
    want = M.view(w.pool() if k in (None, 0) else w.g.m.at(w.chain[-k].hash))
    body = json.dumps(addrs, separators=r.choice([(",", ":"), (", ", ": "), (" ,\n", " : ")])).encode()
    pu, pb = get(e, w, u("/addresses/utxos"), body), get(e, w, u("/addresses/balance"), body)
    if addrs and len(",".join(addrs)) < 60000:
        gu, gb = get(e, w, u("/addresses/utxos", "addresses=" + ",".join(addrs))), get(e, w, u("/addresses/balance", "addresses=" + ",".join(addrs)))
    else: gu, gb = pu, pb
    def bad(msg): raise V("confirmations=%s, %d addresses: %s" % (k, len(addrs), msg), dict(addresses=addrs[:20], k=k), key="disagree")
    for name, x in (("POST utxos", pu), ("POST balance", pb), ("GET utxos", gu), ("GET balance", gb)):
        if not isinstance(x, list) or [i.get("address") for i in x] != addrs: bad("%s does not have one entry per requested address in request order" % name)
    for i, a in enumerate(addrs):
        l = norm(pu[i]["utxos"])
        if len(set(x[:2] for x in l)) != len(l): bad("%s lists an outpoint twice" % a)
        if norm(gu[i]["utxos"]) != l: bad("GET and POST lists differ for %s" % a)
        if gb[i]["balance"] != pb[i]["balance"]: bad("GET and POST balances differ for %s" % a)
        s = sum((P.sat(x["value"]) for x in pu[i]["utxos"]), 0)
        if P.sat(pb[i]["balance"]) != s: bad("balance of %s is %s, its outputs sum to %s" % (a, P.sat(pb[i]["balance"]), s))
        wd = {x[:2]: None for x in l}
        if set(wd) != set(want.get(a, {})): bad("list of %s is not that of the chain state" % a)
        if not want.get(a) and (l or pb[i]["balance"] != 0): bad("%s was never paid but answers %s" % (a, l[:2]))
    for a in set(r.sample(addrs, min(len(addrs), 4))):
        i = addrs.index(a); su, sb = get(e, w, u("/addresses/%s/utxos" % a)), get(e, w, u("/addresses/%s/balance" % a))
        if norm(su) != norm(pu[i]["utxos"]): bad("single and multi address lists differ for %s" % a)
        if sb != pb[i]["balance"]: bad("single and multi address balances differ for %s: %s %s" % (a, sb, pb[i]["balance"]))
        e.cov["single_routes"] += 2
    e.cov["lists"] += 1; e.cov["repeated_addresses"] += len(addrs) - len(set(addrs)); e.cov["empty_lists"] += not addrs
    e.cov["unseen_addresses"] += sum(1 for a in set(addrs) if not want.get(a))

def scenario(e):
    r = e.r; w = World(e, naddr=r.choice([6, 20, 60]), heavy=r.choice([0.0, 0.05]))
    for step in range(r.choice([2, 4])):
        w.mem = w.g.mempool_txs(dict(w.utxo()), r.choice([0, 3, 10])); w.node.set_mempool(w.mem); w.ix.sync()
        for _ in range(12):
            ads = w.g.addrs; n = r.choice([0, 1, 1, 2, 3, 10, 50, len(ads), 400, 1500])
            l = [r.choice(ads) if r.random() < 0.9 else r.choice([C.p2pkh_addr(r.randbytes(20)), C.p2sh_addr(r.randbytes(20))]) for _ in range(n)]
            if r.random() < 0.3: l = l + l
            if r.random() < 0.2 and l: l = [l[0]] * len(l)
            agree(e, w, l, r.choice([None] + w.ks())); e.sig.append(len(l))
        w.mem = []; w.node.set_mempool([]); w.add(r.choice([1, 2])); w.ix.sync()
    if e.idx == 3 or e.idx % 40 == 23:      # lists longer than any limit someone may have thought of
        n = r.choice([20000, 66000]) if e.idx != 3 else 66000; l = [r.choice(w.g.addrs) for _ in range(2000)] + [C.p2pkh_addr(r.randbytes(20)) for _ in range(n - 4000)] + [r.choice(w.g.addrs) for _ in range(2000)]; r.shuffle(l)
        agree(e, w, l, r.choice([None] + w.ks())); e.cov["long_lists"] += 1; e.sig.append(n)
    if e.idx == 5 or e.idx % 40 == 25:      # an address with more outputs than any page of answers would hold
        n = r.choice([12000, 70000]) if e.idx != 5 else 70000; x = C.p2pkh_addr(w.g.hs[0]); b = w.g.block(w.tip, ntx=0, coinbase=w.g.coinbase(len(w.chain), nout=n, value=10**12, scripts=[C.p2pkh_script(w.g.hs[0])] * n)); w.chain.append(b); w.node.set_chain(w.chain); w.ix.sync()
        for k in (None, 1): agree(e, w, [x, w.g.addrs[-1], x], k)
        e.cov["address_with_many_outputs"] += 1; e.sig.append(-n)
    e.samples.append(dict(conf=w.conf, list_lengths=[s for s in e.sig if isinstance(s, int)][:12]))

def run():
    main("C10", scenario, required=("lists", "repeated_addresses", "empty_lists", "unseen_addresses", "single_routes", "long_lists", "address_with_many_outputs"), rule="a scenario counts once per distinct configuration and sequence of list lengths")
